// C02: 2.2 save + load preserves what 2.2 can represent.   C03: saved files follow the layout.
// One program for both: they explore the same specifications with different oracles.
#include "gen.h"
#include "ref_codec.h"
#include "mini.h"
using namespace mc; using namespace sp; using namespace gen;
#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool EXT = true;
#else
constexpr bool EXT = false;
#endif

static MshSpec expected22(const MshSpec& s) {  // stored, with exact tag ranges
    MshSpec w = stored(s);
    tag_range(w, w.nodes.min_node_tag, w.nodes.max_node_tag, w.elements.min_element_tag, w.elements.max_element_tag);
    return w;
}

static void round_trip22(Ctx& c, const MshSpec& s) {
    const MshSpec want = expected22(s);
    c.state(image(want));
    const Saved f = save_bytes(s);
    c.step();
    if (c.want_desc) c.describe("specification:\n" + dump(s).substr(0, 4000) + "\nfile:\n" + hexdump(f.bytes));
    c.check(f.ok, "save_msh refused a valid specification: " + f.kind + ": " + f.error);
    const Loaded l = load_bytes(f.bytes);
    c.step();
    c.check(l.ok, "load_msh refused the saved file: " + l.kind + ": " + l.error);
    const std::string d = flat_diff(want, l.spec, true, EXT);
    c.check(d.empty(), "content differs after the 2.2 round trip: " + d);
    auto eq = [&](size_t a, size_t b, const char* what) { c.check(a == b, std::string(what) + ": expected " + std::to_string(a) + " got " + std::to_string(b)); };
    eq(want.nodes.min_node_tag, l.spec.nodes.min_node_tag, "min_node_tag");
    eq(want.nodes.max_node_tag, l.spec.nodes.max_node_tag, "max_node_tag");
    eq(want.elements.min_element_tag, l.spec.elements.min_element_tag, "min_element_tag");
    eq(want.elements.max_element_tag, l.spec.elements.max_element_tag, "max_element_tag");
    const std::string st = structure(l.spec);
    c.check(st.empty(), st);
    const PhysMap a = physical_map(want, false), b = physical_map(l.spec, false);
    for (auto& x : a) {
        auto it = b.find(x.first);
        const std::string name = "entity (" + std::to_string(x.first.first) + ", " + std::to_string(x.first.second) + ")";
        if (x.second.size() == 1) c.check(it != b.end() && it->second == x.second, "physical group of " + name + " changed");
        if (it != b.end()) for (int p : it->second) c.check(x.second.count(p), name + " got a physical group it did not have");
    }
    for (auto& x : b) c.check(a.count(x.first), "an entity without physical groups got one");
    c.traced();
    c.tag(s.mesh_format.file_type ? "2.2 binary" : "2.2 ascii");
}

static void layout(Ctx& c, const MshSpec& s) {
    const MshSpec want = stored(s);
    const Saved f = save_bytes(s);
    c.step();
    c.state(f.bytes);
    if (c.want_desc) c.describe("specification:\n" + dump(s).substr(0, 4000) + "\nfile:\n" + hexdump(f.bytes));
    c.check(f.ok, "save_msh refused a valid specification: " + f.kind + ": " + f.error);
    ref::File d;
    try { d = ref::Decoder(f.bytes).decode(); }
    catch (const ref::LayoutError& e) { c.fail(e.what()); }
    const bool v22 = s.mesh_format.version == "2.2";
    c.check(d.order == ref::plain_order(s, EXT), "the file has other sections than the content needs");
    if (!v22) {
        MshSpec w = want;
        if (!EXT) strip_ext(w);
        const std::string x = diff(w, d.content);
        c.check(x.empty(), "an independent decoder reads something else: " + x);
    } else {
        MshSpec w = want, g = d.content;
        w.nodes = Nodes(); w.elements = Elements(); w.entities = Entities();
        if (!EXT) strip_ext(w);
        const std::string x = diff(w, g);
        c.check(x.empty(), "an independent decoder reads something else: " + x);
        const Flat fl = flatten(want);
        c.check(fl.nodes.size() == d.nodes.size(), "number of nodes in the file");
        for (size_t i = 0; i < fl.nodes.size(); i++) {
            const FlatNode &a = fl.nodes[i], &b = d.nodes[i];
            c.check(a.tag == b.tag && bits(a.x) == bits(b.x) && bits(a.y) == bits(b.y) && bits(a.z) == bits(b.z), "node " + std::to_string(i) + " differs in the file");
        }
        c.check(fl.elems.size() == d.elems.size(), "number of elements in the file");
        const PhysMap ph = physical_map(want, false);
        for (size_t i = 0; i < fl.elems.size(); i++) {
            auto& a = fl.elems[i]; auto& b = d.elems[i];
            const std::string n = "element " + std::to_string(i);
            c.check(a.tag == b.tag && a.type == b.type && a.nodes == b.nodes, n + " differs in the file");
            c.check(!b.tags.empty(), n + " has no tags");
            auto it = ph.find({a.dim, a.entity});
            const int ent = b.tags.size() > 1 ? b.tags[1] : b.tags[0];
            c.check(ent == a.entity, n + ": elementary entity differs in the file");
            if (it != ph.end()) c.check(b.tags.size() > 1 && it->second.count(b.tags[0]), n + ": physical tag missing or wrong in the file");
            else c.check(b.tags.size() == 1 || b.tags[0] == 0, n + ": has a physical tag its entity does not have");
        }
    }
    c.traced();
    c.tag(s.mesh_format.version + (s.mesh_format.file_type ? " binary" : " ascii"));
}

int main(int argc, char** argv) {
    Quiet quiet;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    const bool c03 = e.opt.property == "C03";
    auto format = [c03](Ctx& c, Opt& o) {
        o.file_type = static_cast<int>(c.free_choose(2));
        o.version = "2.2";
        if (c03 && c.free_flag()) o.version = "4.1";
        o.ext = EXT;
        o.unique_entities = o.version == "2.2";
        o.data_size_free = o.version == "2.2" && o.vary_values;
    };
    auto body = [c03](Ctx& c, const MshSpec& s) { if (c03) layout(c, s); else round_trip22(c, s); };
    auto space = [&](const char* name, int rich, int values, int bound) {
        e.add({name, [=](Ctx& c) {
            Opt o; o.rich = rich; o.values = values;
            format(c, o);
            body(c, Gen(c, o).spec());
        }, bound});
    };
    space("values", 1, th ? 2 : (c03 ? 0 : 1), 1);
    if (!c03 || th) space("pairs", 0, 0, 2);
    // structure only (counts, types, parametric flags): every pair of deviations of a rich specification
    if (c03 || th) e.add({"structure", [=](Ctx& c) {
        Opt o; o.rich = c.thorough ? static_cast<int>(c.free_choose(2)) : 0; o.vary_values = false;
        format(c, o);
        body(c, Gen(c, o).spec());
    }, 2});
    if (th) space("rich-pairs", 1, 0, 2);
    e.add({"sizes", [=](Ctx& c) {
        Opt o; o.vary_values = false;
        format(c, o);
        o = sweep_opt(c, o, EXT);
        if (c03 && !c.thorough && o.rich) throw Skip{};
        body(c, Gen(c, o).spec());
    }, 0, 60});
    e.add({"size-pairs", [=](Ctx& c) {
        Opt o; o.vary_values = false;
        format(c, o);
        o = sweep_pair(c, o, EXT);
        body(c, Gen(c, o).spec());
    }, 0});
    const auto strings = all_strings(th ? 4 : 2);
    e.add({"strings", [=, &strings](Ctx& c) {
        Opt o; o.vary_values = o.vary_counts = false; o.rich = 1;
        format(c, o);
        MshSpec s = Gen(c, o).spec();
        const uint32_t where = c.free_choose(4);
        const std::string& t = c.free_of(strings);
        switch (where) {
        case 0: s.physical_groups[0].name = t; break;
        case 1: s.node_data[0].header.string_tags[0] = t; break;
        case 2: s.element_data[1].header.string_tags[1] = t; break;
        case 3: s.element_node_data[0].header.string_tags[1] = t; break;
        }
        body(c, s);
    }, 0});
    e.add({"shapes", [=](Ctx& c) {
        Opt o; o.vary_values = o.vary_counts = false;
        format(c, o);
        o.rich = static_cast<int>(c.free_choose(2));
        MshSpec s = Gen(c, o).spec();
        auto cut = [&](auto& v, uint32_t most) { const uint32_t n = c.free_choose(most + 1); if (v.size() < n) throw Skip{}; v.resize(n); };
        cut(s.physical_groups, 2);
        const bool ents = c.free_flag();
        if (!ents) s.entities = Entities();
        if (c.free_flag()) { s.nodes = Nodes(); s.elements = Elements(); }
        else if (c.free_flag()) s.elements = Elements();
        cut(s.node_data, 2); cut(s.element_data, 2); cut(s.element_node_data, 2);
        if (EXT) { cut(s.curves, 1); cut(s.patches, 1); }
        body(c, s);
    }, 0});
    // element blocks: every sequence of <= 3 blocks over types, entities, element counts (0..2)
    e.add({"blocks", [=](Ctx& c) {
        Opt o; o.vary_values = o.vary_counts = false; o.rich = 1;
        format(c, o);
        MshSpec s = Gen(c, o).spec();
        std::vector<size_t> pool;
        for (auto& b : s.nodes.entity_blocks) pool.insert(pool.end(), b.tags.begin(), b.tags.end());
        s.elements = Elements();
        size_t tag = 100, k = 0;
        const uint32_t nb = 1 + c.free_choose(c03 && !c.thorough ? 2 : 3);
        for (uint32_t i = 0; i < nb; i++) {
            // all types for a single block, a few for longer sequences
            const Type& t = nb == 1 ? c.free_of(types()) : types()[c.free_of<size_t>({0, 1, 2, 14})];
            ElementBlock b; b.element_type = t.type; b.entity_dim = t.dim;
            auto& en = s.entities;
            const int first = t.dim == 0 ? en.points[0].tag : t.dim == 1 ? en.curves[0].tag : t.dim == 2 ? en.surfaces[0].tag : en.volumes[0].tag;
            b.entity_tag = c.free_of<int>({first, 3, -5});
            b.num_elements_in_block = c.free_choose(3);
            for (size_t j = 0; j < b.num_elements_in_block; j++) { b.data.push_back(tag++); for (size_t q = 0; q < t.nodes; q++) b.data.push_back(pool[k++ % pool.size()]); }
            s.elements.num_elements += b.num_elements_in_block;
            s.elements.entity_blocks.push_back(b);
        }
        s.elements.num_entity_blocks = nb; s.elements.min_element_tag = 100; s.elements.max_element_tag = 1000;
        // the physical groups of each entity: 0, 1 or 2
        const uint32_t np = c.free_choose(3);
        auto set = [&](auto& v) { for (auto& x : v) { x.physical_group_tags.clear(); for (uint32_t j = 0; j < np; j++) x.physical_group_tags.push_back(static_cast<int>(j) * 7 + 9); } };
        set(s.entities.points); set(s.entities.curves); set(s.entities.surfaces); set(s.entities.volumes);
        body(c, s);
    }, 0});
    // every pair of element types next to each other
    e.add({"type-pairs", [=](Ctx& c) {
        Opt o; o.vary_values = o.vary_counts = false;
        format(c, o);
        o.rich = 0; o.ext = EXT;
        body(c, mini::type_pair(c, Gen(c, o).spec()));
    }, 0});
    // relations between the values of one array
    e.add({"patterns", [=](Ctx& c) {
        Opt o; o.vary_values = o.vary_counts = false;
        format(c, o);
        o.rich = 0; o.ext = EXT;
        body(c, mini::patterns(c, Gen(c, o).spec()));
    }, 0});
    return run_main(e);
}
