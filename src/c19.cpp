// C19: what the Python module registers, against the fields and functions of the library.
#include <nanobind/nanobind.h>
#include PYMSHIO
#include "sysio.h"
#include "mini.h"
using namespace mc; using namespace sp; using namespace gen;
namespace stub = nanobind::stub;

// ---- the fields of every structure (written from include/mshio/MshSpec.h)
struct PyField {
    std::string name;
    std::type_index type = typeid(void);
    std::function<std::any(const void*)> get;
    std::function<void(void*, const std::any&)> set;
    std::vector<std::any> values;                            // values to assign
    std::function<std::string(const std::any&)> text;        // canonical image of a value
    std::function<std::string(const std::any&)> repr;        // "" : not a scalar or nested structure
    std::function<size_t(const std::any&)> size;             // of a list
};
struct Struct { std::string name; std::type_index type = typeid(void); std::vector<PyField> fields; std::function<std::any()> make; std::function<void*(std::any&)> at; };
static std::vector<Struct>& structs() { static std::vector<Struct> s; return s; }
static const Struct* struct_of(std::type_index t) { for (auto& s : structs()) if (s.type == t) return &s; return nullptr; }

static std::string img(int v) { return std::to_string(v); }
static std::string img(size_t v) { return std::to_string(v); }
static std::string img(double v) { return std::to_string(bits(v)); }
static std::string img(const std::string& v) { return show(v); }
template <class T> std::string img(const T& v) { std::string r = "{"; for (auto& f : struct_of(typeid(T))->fields) r += f.name + ":" + f.text(f.get(&v)) + ";"; return r + "}"; }
template <class T> std::string img(const std::vector<T>& v) { std::string r = "["; for (auto& x : v) r += img(x) + ","; return r + "]"; }

template <class T> struct Values;
template <> struct Values<int> { static std::vector<int> get() { return {7, 0, -1, 2147483647, -2147483647 - 1}; } };
template <> struct Values<size_t> { static std::vector<size_t> get() { return {9, 0, 1, size_t(1) << 31, size_t(1) << 53, ~size_t(0)}; } };
template <> struct Values<double> { static std::vector<double> get() { return {0.25, 0.0, -1e300, 1.0 / 3, 5e-324}; } };
template <> struct Values<std::string> { static std::vector<std::string> get() { return {"text", "", "a b\"c\\", "\xc3\xa9", std::string("x\0y", 3)}; } };
template <class T> struct Values { static std::vector<T> get() {  // structures: default, and one with every field set
    T a{}, b{}; int k = 1;
    for (auto& f : struct_of(typeid(T))->fields) { f.set(&b, f.values[static_cast<size_t>(k) % f.values.size()]); k++; }
    return {b, a};
} };
template <class T> struct Values<std::vector<T>> { static std::vector<std::vector<T>> get() { std::vector<T> e = Values<T>::get(); std::vector<T> r(e.rbegin(), e.rend()); return {e, {}, {e[0]}, r}; } };

template <class T, class V> PyField py_field(const char* name, V T::*p) {
    PyField f; f.name = name; f.type = typeid(V);
    f.get = [p](const void* o) { return std::any(static_cast<const T*>(o)->*p); };
    f.set = [p](void* o, const std::any& v) { static_cast<T*>(o)->*p = std::any_cast<V>(v); };
    for (auto& v : Values<V>::get()) f.values.push_back(std::any(v));
    f.text = [](const std::any& v) { return img(std::any_cast<V>(v)); };
    if constexpr (stub::is_vector<V>::value) f.size = [](const std::any& v) { return std::any_cast<const V&>(v).size(); };
    if constexpr (std::is_same_v<V, int> || std::is_same_v<V, size_t>) f.repr = [](const std::any& v) { return std::to_string(std::any_cast<V>(v)); };
    else if constexpr (std::is_same_v<V, double>) f.repr = [](const std::any& v) { return std::to_string(std::any_cast<V>(v)); };
    else if constexpr (std::is_same_v<V, std::string>) f.repr = [](const std::any& v) { return std::any_cast<V>(v); };
    else f.repr = [](const std::any& v) { return stub::repr_of(std::any_cast<const V&>(v)); };
    return f;
}
template <class T> void add(const char* name, std::vector<PyField> f) {
    Struct s; s.name = name; s.type = typeid(T); s.fields = std::move(f);
    s.make = [] { return std::any(T()); }; s.at = [](std::any& a) { return static_cast<void*>(std::any_cast<T>(&a)); };
    structs().push_back(std::move(s));
}
#define F(T, n) py_field<T>(#n, &T::n)
static void tables() {
    add<MeshFormat>("MeshFormat", {F(MeshFormat, version), F(MeshFormat, file_type), F(MeshFormat, data_size)});
    add<NodeBlock>("NodeBlock", {F(NodeBlock, entity_dim), F(NodeBlock, entity_tag), F(NodeBlock, parametric), F(NodeBlock, num_nodes_in_block), F(NodeBlock, tags), F(NodeBlock, data)});
    add<Nodes>("Nodes", {F(Nodes, num_entity_blocks), F(Nodes, num_nodes), F(Nodes, min_node_tag), F(Nodes, max_node_tag), F(Nodes, entity_blocks)});
    add<ElementBlock>("ElementBlock", {F(ElementBlock, entity_dim), F(ElementBlock, entity_tag), F(ElementBlock, element_type), F(ElementBlock, num_elements_in_block), F(ElementBlock, data)});
    add<Elements>("Elements", {F(Elements, num_entity_blocks), F(Elements, num_elements), F(Elements, min_element_tag), F(Elements, max_element_tag), F(Elements, entity_blocks)});
    add<DataHeader>("DataHeader", {F(DataHeader, string_tags), F(DataHeader, real_tags), F(DataHeader, int_tags)});
    add<DataEntry>("DataEntry", {F(DataEntry, tag), F(DataEntry, num_nodes_per_element), F(DataEntry, data)});
    add<Data>("Data", {F(Data, header), F(Data, entries)});
    add<PointEntity>("PointEntity", {F(PointEntity, tag), F(PointEntity, x), F(PointEntity, y), F(PointEntity, z), F(PointEntity, physical_group_tags)});
#define BOX(T) F(T, tag), F(T, min_x), F(T, min_y), F(T, min_z), F(T, max_x), F(T, max_y), F(T, max_z), F(T, physical_group_tags)
    add<CurveEntity>("CurveEntity", {BOX(CurveEntity), F(CurveEntity, boundary_point_tags)});
    add<SurfaceEntity>("SurfaceEntity", {BOX(SurfaceEntity), F(SurfaceEntity, boundary_curve_tags)});
    add<VolumeEntity>("VolumeEntity", {BOX(VolumeEntity), F(VolumeEntity, boundary_surface_tags)});
    add<Entities>("Entities", {F(Entities, points), F(Entities, curves), F(Entities, surfaces), F(Entities, volumes)});
    add<PhysicalGroup>("PhysicalGroup", {F(PhysicalGroup, dim), F(PhysicalGroup, tag), F(PhysicalGroup, name)});
    add<MshSpec>("MshSpec", {F(MshSpec, mesh_format), F(MshSpec, nodes), F(MshSpec, elements), F(MshSpec, entities), F(MshSpec, physical_groups), F(MshSpec, node_data), F(MshSpec, element_data), F(MshSpec, element_node_data)});
}
// Attribute names that are not the name of a field, and the field they stand for.
static std::string field_of(const std::string& cls, const std::string& attr) { return cls == "DataEntry" && attr == "num_nodes_per_elements" ? "num_nodes_per_element" : attr; }
static const PyField* find(const Struct& s, const std::string& n) { for (auto& f : s.fields) if (f.name == n) return &f; return nullptr; }
static std::string all_of(const Struct& s, const void* o) { std::string r; for (auto& f : s.fields) r += f.name + ":" + f.text(f.get(o)) + "\n"; return r; }

// An object whose fields all hold their k-th value (rotated by the position of the field).
static std::any filled(const Struct& s, size_t k) {
    std::any o = s.make();
    for (size_t i = 0; i < s.fields.size(); i++) { auto& f = s.fields[i]; f.set(s.at(o), f.values[(k + i) % f.values.size()]); }
    return o;
}
// What follows "name=" in a string form, up to the "," or ")" that closes it at the same depth.
static bool shown(const std::string& text, const std::string& name, const std::vector<std::string>& ok) {
    for (size_t p = text.find(name + "="); p != std::string::npos; p = text.find(name + "=", p + 1)) {
        if (p && (isalnum(static_cast<unsigned char>(text[p - 1])) || text[p - 1] == '_')) continue;
        for (auto& v : ok) {
            const size_t at = p + name.size() + 1;
            for (const std::string q : {std::string(), std::string("'"), std::string("\"")}) {
                const std::string want = q + v + q;
                if (text.compare(at, want.size(), want) == 0 && at + want.size() < text.size() && (text[at + want.size()] == ',' || text[at + want.size()] == ')')) return true;
            }
        }
        return false;
    }
    return false;
}
static const stub::Method& method(Ctx& c, const std::string& name, std::initializer_list<std::type_index> params) {
    auto it = stub::module().functions.find(name);
    c.check(it != stub::module().functions.end(), "the module has no function " + name);
    const std::vector<std::type_index> want(params);
    for (auto& m : it->second) if (m.params == want) return m;
    c.fail("no function " + name + " with the expected parameters");
}
template <class F> std::string outcome(F f) {
    try { return f(); }
    catch (const InvalidFormat& e) { return std::string("InvalidFormat: ") + e.what(); }
    catch (const UnsupportedFeature& e) { return std::string("UnsupportedFeature: ") + e.what(); }
    catch (const CorruptData& e) { return std::string("CorruptData: ") + e.what(); }
    catch (const std::exception& e) { return std::string("std::exception: ") + e.what(); }
}

int main(int argc, char** argv) {
    Quiet quiet;
    tables();
    nanobind::module_ m;
    nb_module_init(m);
    sysio::Scratch scratch;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    auto bound = [](Ctx& c, const Struct& s) -> const stub::Class& {
        auto it = stub::module().classes.find(s.type);
        c.check(it != stub::module().classes.end(), "the structure " + s.name + " is not exposed");
        return it->second;
    };
    // every class: its name, its fields, its constructor
    e.add({"classes", [=](Ctx& c) {
        const Struct& s = c.free_of(structs());
        const stub::Class& k = bound(c, s);
        c.step(); c.evaluated(); c.state(s.name); c.nontrivial(fnv(s.name));
        if (c.want_desc) c.describe(s.name);
        c.check(k.name == s.name, s.name + " is exposed as " + k.name);
        for (auto& f : s.fields) {
            auto it = k.attrs.find(f.name);
            c.check(it != k.attrs.end(), s.name + "." + f.name + " is not exposed");
            c.check(static_cast<bool>(it->second.set), s.name + "." + f.name + " cannot be written");
            c.check(it->second.type == f.type, s.name + "." + f.name + " has another type");
        }
        c.check(!k.constructors.empty(), s.name + " cannot be constructed");
        for (auto& make : k.constructors) { std::any o = make(), d = s.make(); c.check(all_of(s, s.at(o)) == all_of(s, s.at(d)), "a new " + s.name + " does not have the default values"); }
        c.traced(); c.tag("class");
    }, 0});
    // the package hands on everything the extension module has
    e.add({"package", [=, &scratch](Ctx& c) {
        c.step(); c.evaluated(); c.state("package"); c.nontrivial(1);
        const std::string d = scratch.file("package");
        std::string names;
        for (auto& k : stub::module().classes) names += k.second.name + " = '" + k.second.name + "'\n";
        for (auto& f : stub::module().functions) names += f.first + " = '" + f.first + "'\n";
        std::string cmd = "mkdir -p '" + d + "/mshio' && cp '" PYPACKAGE "' '" + d + "/mshio/__init__.py'";
        if (system(cmd.c_str())) throw Internal(cmd);
        { std::ofstream(d + "/mshio/pymshio.py") << names; }
        { std::ofstream(d + "/t.py") << "import sys; sys.path.insert(0, '" << d << "'); sys.dont_write_bytecode = True\nimport mshio, mshio.pymshio as p\nfor n in dir(p):\n    if not n.startswith('_'): assert getattr(mshio, n) is getattr(p, n), n\n"; }
        const int r = system(("python3 '" + d + "/t.py' >/dev/null 2>&1").c_str());
        if (system(("rm -rf '" + d + "'").c_str())) {}
        c.check(r == 0, "the mshio package does not hand on what the extension module has");
        c.traced(); c.tag("package");
    }, 0});
    // every sequence of reads and writes of attributes, against the structure itself
    const size_t depth = th ? 3 : 2;
    e.add({"attributes", [=](Ctx& c) {
        const Struct& s = c.free_of(structs());
        const stub::Class& k = bound(c, s);
        std::any o = filled(s, c.free_choose(3)), model = o;
        std::string log = s.name;
        for (size_t step = 0; step < depth; step++) {
            const std::string name = k.attr_order[c.free_choose(static_cast<uint32_t>(k.attr_order.size()))];
            const stub::Attr& a = k.attrs.at(name);
            const PyField* f = find(s, field_of(s.name, name));
            c.check(f != nullptr || !a.set, s.name + "." + name + " is not the name of a field");
            c.step();
            if (f) c.check(f->text(a.get(s.at(o))) == f->text(f->get(s.at(model))), log + ": reading " + name + " gives " + f->text(a.get(s.at(o))) + ", the field is " + f->text(f->get(s.at(model))));
            c.check(all_of(s, s.at(o)) == all_of(s, s.at(model)), log + ": reading " + name + " changed the object");
            if (!f || !a.set) continue;
            const size_t v = c.free_choose(static_cast<uint32_t>(f->values.size()));
            log += "; " + name + " = " + f->text(f->values[v]).substr(0, 60);
            a.set(s.at(o), f->values[v]);
            f->set(s.at(model), f->values[v]);
            if (all_of(s, s.at(o)) != all_of(s, s.at(model))) {
                if (c.want_desc) c.describe(log + "\nis\n" + all_of(s, s.at(o)) + "should be\n" + all_of(s, s.at(model)));
                c.fail(log + ": the object is not the one with that field changed");
            }
        }
        c.evaluated(); c.state(log); c.nontrivial(fnv(log)); c.traced(); c.tag("assigned");
        if (c.want_desc) c.describe(log);
    }, 0});
    // string forms
    e.add({"strings", [=](Ctx& c) {
        const Struct& s = c.free_of(structs());
        const stub::Class& k = bound(c, s);
        std::any o = filled(s, c.free_choose(6));
        if (c.free_flag()) { const PyField& f = c.free_of(s.fields); f.set(s.at(o), c.free_of(f.values)); }
        c.step(); c.evaluated(); c.state(s.name + all_of(s, s.at(o))); c.nontrivial(fnv(all_of(s, s.at(o))));
        size_t named = 0;
        for (const char* n : {"__repr__", "__str__"}) {
            auto it = k.methods.find(n);
            if (it == k.methods.end()) continue;
            const std::string before = all_of(s, s.at(o));
            const std::string t = std::any_cast<std::string>(it->second[0].call(s.at(o), {}));
            c.check(before == all_of(s, s.at(o)), s.name + "." + n + " changes the object");
            if (c.want_desc) c.describe(before + "\n" + t);
            c.check(t.compare(0, s.name.size(), s.name) == 0, "the string form of " + s.name + " is " + show(t));
            for (auto& f : s.fields) {
                std::vector<std::string> names = {f.name};
                for (auto& a : k.attr_order) if (a != f.name && field_of(s.name, a) == f.name) names.push_back(a);
                for (auto& nm : names) {
                    bool present = false;
                    for (size_t p = t.find(nm + "="); p != std::string::npos; p = t.find(nm + "=", p + 1)) present |= p && (t[p - 1] == '(' || t[p - 1] == ' ');
                    if (!present) continue;
                    named++;
                    const std::any v = f.get(s.at(o));
                    std::vector<std::string> ok;
                    if (f.repr) ok.push_back(f.repr(v));
                    if (f.type == typeid(double)) { ok.push_back(stub::repr_of(std::any_cast<double>(v))); std::ostringstream d; d << std::any_cast<double>(v); ok.push_back(d.str()); }
                    if (f.size) ok.push_back(std::to_string(f.size(v)));
                    c.check(shown(t, nm, ok), s.name + "." + n + " shows another value of " + nm + ": " + show(t.substr(0, 400)) + " instead of " + show(ok[0].substr(0, 100)));
                }
            }
        }
        c.check(named > 0, s.name + " has no string form that names a field");
        c.traced(); c.tag("shown");
    }, 0});
    // Entities.empty
    e.add({"empty", [=](Ctx& c) {
        Entities x;
        if (c.free_flag()) x.points.resize(1);
        if (c.free_flag()) x.curves.resize(2);
        if (c.free_flag()) x.surfaces.resize(1);
        if (c.free_flag()) x.volumes.resize(3);
        const stub::Class& k = stub::module().classes.at(typeid(Entities));
        auto it = k.methods.find("empty");
        c.check(it != k.methods.end(), "Entities.empty is not exposed");
        const bool want = x.points.empty() && x.curves.empty() && x.surfaces.empty() && x.volumes.empty();
        c.step(); c.evaluated(); c.state(all_of(*struct_of(typeid(Entities)), &x)); c.nontrivial(fnv(all_of(*struct_of(typeid(Entities)), &x)));
        c.check(std::any_cast<bool>(it->second[0].call(&x, {})) == want, "Entities.empty is wrong");
        c.traced(); c.tag("empty");
    }, 0});
    // the functions
    e.add({"functions", [=, &scratch](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const MshSpec s = mini::fixed(f, static_cast<int>(c.free_choose(2)), false);
        const std::string good = save_bytes(s).bytes;
        const uint32_t what = c.free_choose(4);
        const std::string path = scratch.file();
        struct Gone { std::string p; ~Gone() { unlink(p.c_str()); } } gone{path};
        c.step(2); c.evaluated();
        std::string d;
        if (what == 0) {  // load
            const std::string bytes = c.free_of<std::string>({good, good.substr(0, good.size() / 2), "", "$MeshFormat\n3 0 8\n$EndMeshFormat\n"});
            const bool exists = c.free_flag();
            if (exists) { std::ofstream(path, std::ios::binary) << bytes; }
            d = "load " + bytes + std::to_string(exists);
            const std::string want = outcome([&] { return image(load_msh(path), false); });
            const std::string got = outcome([&] { return image(std::any_cast<MshSpec>(method(c, "load_msh", {typeid(std::string)}).call(nullptr, {path})), false); });
            c.check(want == got, "load_msh of the module gives another result than the library");
            if (exists) c.check(slurp(path) == bytes, "load_msh of the module modified its input");
        } else if (what == 1) {  // save
            MshSpec x = s;
            if (c.free_flag()) x.mesh_format.version = "9";
            if (c.free_flag()) { std::ofstream(path, std::ios::binary) << std::string(5000, 'x'); }
            const std::string p = c.free_flag() ? path : scratch.dir + "/no/such/directory";
            d = "save " + image(x, false) + p.substr(p.size() - 3);
            const std::string before = image(x, false);
            const std::string want = outcome([&] { save_msh(p, x); return slurp(p); });
            unlink(path.c_str());
            const std::string got = outcome([&] { method(c, "save_msh", {typeid(std::string), typeid(MshSpec)}).call(nullptr, {p, x}); return slurp(p); });
            c.check(want == got, "save_msh of the module writes something else than the library");
            c.check(image(x, false) == before, "save_msh of the module changed the specification");
        } else if (what == 2) {  // validate
            MshSpec x = s;
            const uint32_t k = c.free_choose(6);
            if (k == 1) x.nodes.num_entity_blocks++;
            if (k == 2) x.nodes.entity_blocks[0].tags.pop_back();
            if (k == 3) x.elements.num_entity_blocks++;
            if (k == 4) x.nodes.min_node_tag++;
            if (k == 5) x.elements.max_element_tag++;
            d = "validate " + image(x, false);
            const std::string want = outcome([&] { validate_spec(x); return "valid"; });
            const std::string got = outcome([&] { method(c, "validate_spec", {typeid(MshSpec)}).call(nullptr, {x}); return "valid"; });
            c.check(want == got, "validate_spec of the module says " + got + ", the library " + want);
        } else {
            const int t = static_cast<int>(c.free_choose(200)) - 60;
            d = "type " + std::to_string(t);
            const std::string a = outcome([&] { return std::to_string(nodes_per_element(t)); }), b = outcome([&] { return std::to_string(get_element_dim(t)); });
            const std::string x = outcome([&] { return std::to_string(std::any_cast<size_t>(method(c, "nodes_per_element", {typeid(int)}).call(nullptr, {t}))); });
            const std::string y = outcome([&] { return std::to_string(std::any_cast<int>(method(c, "get_element_dim", {typeid(int)}).call(nullptr, {t}))); });
            c.check(a == x && b == y, "element queries of the module for " + std::to_string(t) + ": " + x + ", " + y + " instead of " + a + ", " + b);
        }
        c.state(d); c.nontrivial(fnv(d)); c.traced(); c.tag(d.substr(0, d.find(' ')));
        if (c.want_desc) c.describe(d.substr(0, 3000));
    }, 0});
    return run_main(e);
}
