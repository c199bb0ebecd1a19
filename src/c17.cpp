// C17: spline data round trips, and stays out of the way of builds without the extension.
#include "mini.h"
#include "oracle.h"
#include <dlfcn.h>
using namespace mc; using namespace sp; using namespace gen;

using Plain = size_t (*)(const void*, char*, size_t);
using PlainLoad = size_t (*)(const char*, size_t, char*, size_t);
static Plain plain_save;
static PlainLoad plain_load;
static std::string text(const std::function<size_t(char*, size_t)>& f) {
    static std::string buf(1 << 16, 0);
    const size_t n = f(&buf[0], buf.size());
    if (n > buf.size()) { buf.resize(n * 2); f(&buf[0], buf.size()); }
    return buf.substr(0, n);
}
// The standard content as a plain build sees it: its image starts with "ok\n".
static std::string std_image(const MshSpec& s) { return "ok\n" + image(s, false); }
static bool clean(const std::string& body, const char* marker) {  // the end marker does not occur inside the section
    return body.find(marker) == std::string::npos;
}

static void cross(Ctx& c, const std::string& bytes, const MshSpec& in_ext, const std::string& how) {
    const std::string got = text([&](char* o, size_t n) { return plain_load(bytes.data(), bytes.size(), o, n); });
    c.step();
    if (got.compare(0, 3, "ok\n") != 0) c.fail(how + ": a build without the extension refuses it: " + got.substr(0, 200));
    const std::string want = std_image(in_ext);
    if (got != want) c.fail(how + ": a build without the extension reads other standard content");
}
static void round_trip(Ctx& c, const MshSpec& s) {
    c.evaluated();
    if (c.want_desc) c.describe(dump(s).substr(0, 6000));
    const Saved f = save_bytes(s);
    c.step();
    c.check(f.ok, "save refused: " + f.error);
    c.state(f.bytes);
    if (!s.curves.empty() || !s.patches.empty()) c.nontrivial(fnv(f.bytes));
    const Loaded l = load_bytes(f.bytes);
    c.step();
    c.check(l.ok, "load refused: " + l.error);
    const MshSpec want = stored(s);
    const bool v22 = s.mesh_format.version == "2.2";
    if (v22) {
        const std::string d = flat_diff(want, l.spec);
        c.check(d.empty(), "round trip: " + d);
    } else {
        const std::string d = diff(want, l.spec);
        c.check(d.empty(), "round trip: " + d);
    }
    // the layout, by the independent decoder
    ref::File d;
    try { d = ref::Decoder(f.bytes).decode(); } catch (const std::exception& e) { c.fail(std::string("malformed file: ") + e.what()); }
    { MshSpec a, b; a.curves = s.curves; a.patches = s.patches; a.nanospline_format = s.nanospline_format; b.curves = d.content.curves; b.patches = d.content.patches; b.nanospline_format = d.content.nanospline_format;
      const std::string m = diff(a, b); c.check(m.empty(), "the file holds other spline data: " + m); }
    c.traced();
    // to a build without
    cross(c, f.bytes, l.spec, "file with splines");
    // and back: the same specification saved by a build without the extension
    const std::string p = text([&](char* o, size_t n) { return plain_save(&s, o, n); });
    c.step();
    if (p.compare(0, 3, "ok\n") != 0) c.fail("a build without the extension cannot save it: " + p.substr(0, 200));
    const Loaded back = load_bytes(p.substr(3));
    c.step();
    c.check(back.ok, "a file of a build without the extension is refused: " + back.error);
    MshSpec w = l.spec; strip_ext(w);
    const std::string m = diff(w, back.spec);
    c.check(m.empty(), "a file of a build without the extension loads differently: " + m);
    c.traced();
    c.tag("round trip");
}
static double eight(const std::string& s) { double d; std::string t = s; t.resize(8, ' '); memcpy(&d, t.data(), 8); return d; }

int main(int argc, char** argv) {
    Quiet quiet;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    const std::string dir = getenv("MSHIO_BUILD") ? getenv("MSHIO_BUILD") : ".";
    void* h = dlopen((dir + "/load-zero-off.so").c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { std::cerr << dlerror() << "\n"; return 2; }
    plain_save = reinterpret_cast<Plain>(dlsym(h, "mshio_saved"));
    plain_load = reinterpret_cast<PlainLoad>(dlsym(h, "mshio_standard"));

    auto opt = [](Ctx& c, int rich) {
        const mini::Fmt f = c.free_of(mini::formats());
        Opt o; o.version = f.version; o.file_type = f.type; o.ext = true; o.only_ext = true; o.rich = rich;
        return o;
    };
    // every value of every spline field, large alphabets
    e.add({"values", [=](Ctx& c) { Opt o = opt(c, static_cast<int>(c.free_choose(2))); o.values = c.thorough ? 2 : 1; round_trip(c, Gen(c, o).spec()); }, 1});
    // deviations in pairs
    e.add({"pairs", [=](Ctx& c) { round_trip(c, Gen(c, opt(c, 0)).spec()); }, th ? 3 : 2});
    if (th) e.add({"rich-pairs", [=](Ctx& c) { round_trip(c, Gen(c, opt(c, 1)).spec()); }, 2});
    // all numbers of control points and knots, with and without weights
    auto shape = [](size_t k) { double v = static_cast<double>(k) + 0.1; return v; };
    e.add({"curves", [=](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        MshSpec s = c.free_flag() ? mini::fixed(f, 1, true) : mini::only(mini::fixed(f, 0, true), "MeshFormat");
        s.curves.clear(); s.patches.clear();
        const size_t n = 1 + c.free_choose(2);
        size_t k = 0;
        for (size_t i = 0; i < n; i++) {
            Curve q; q.curve_tag = 10 + i; q.curve_type = 20 + i; q.curve_degree = c.free_choose(3);
            q.num_control_points = c.free_choose(i ? 3 : (c.thorough ? 8 : 5)); q.num_knots = c.free_choose(i ? 3 : (c.thorough ? 8 : 5)); q.with_weights = c.free_choose(i ? 2 : 3);
            for (size_t j = 0; j < q.num_control_points * (q.with_weights ? 4 : 3) + q.num_knots; j++) q.data.push_back(shape(k++));
            s.curves.push_back(q);
        }
        round_trip(c, s);
    }, 0});
    e.add({"patches", [=](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        MshSpec s = c.free_flag() ? mini::fixed(f, 1, true) : mini::only(mini::fixed(f, 0, true), "MeshFormat");
        s.curves.clear(); s.patches.clear();
        const size_t n = 1 + c.free_choose(2);
        size_t k = 0;
        for (size_t i = 0; i < n; i++) {
            Patch q; q.patch_tag = 10 + i; q.patch_type = 20 + i; q.degree_u = 1 + i; q.degree_v = 5 + c.free_choose(2);
            q.num_control_points = c.free_choose(i ? 2 : 4); q.num_u_knots = c.free_choose(i ? 2 : (c.thorough ? 6 : 4)); q.num_v_knots = c.free_choose(i ? 2 : (c.thorough ? 6 : 4)); q.with_weights = c.free_choose(i ? 2 : 3);
            for (size_t j = 0; j < q.num_control_points * (q.with_weights ? 4 : 3) + q.num_u_knots + q.num_v_knots; j++) q.data.push_back(shape(k++));
            s.patches.push_back(q);
        }
        round_trip(c, s);
    }, 0});
    // presence of every section with and without splines
    e.add({"sections", [=](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        MshSpec s = mini::fixed(f, static_cast<int>(c.free_choose(2)), true);
        auto cut = [&](auto& v) { if (c.free_flag()) v.clear(); };
        cut(s.physical_groups); cut(s.node_data); cut(s.element_data); cut(s.element_node_data); cut(s.curves); cut(s.patches);
        if (c.free_flag()) s.entities = Entities();
        if (c.free_flag()) { s.nodes = Nodes(); s.elements = Elements(); }
        else if (c.free_flag()) s.elements = Elements();
        round_trip(c, s);
    }, 0});
    // spline data whose bytes look like text, markers and blanks
    e.add({"bytes", [=](Ctx& c) {
        static const std::vector<std::string> w = {"$Nodes\n1", "\n$Nodes\n", "$EndNode", "s\n$Nodes", "$EndCurv", "es", "$EndPatc", "h\n", "\n\n\n\n\n\n\n\n", "        ", "$", "$ $ $ $ ", "\n$End\n", "$Patches", "$Curves\n", "$EndMesh", "Format\n$", "\r\n\t\x1a", std::string(8, '\0'), std::string(8, '\xff'), "\"\"\"\"\"\"\"\"", "0", "1 2 3 4 ", "nan inf "};
        const mini::Fmt f = c.free_of({mini::formats()[1], mini::formats()[3]});
        MshSpec s = mini::fixed(f, static_cast<int>(c.free_choose(2)), true);
        std::string body;
        const bool patch = c.free_flag();
        auto& data = patch ? s.patches[0].data : s.curves[0].data;
        const size_t at = c.free_choose(3) * (data.size() - 2) / 2;
        const std::string a = c.free_of(w), b = c.free_of(w);
        data[at] = eight(a); data[at + 1] = eight(b);
        if (c.thorough && at + 2 < data.size()) { const std::string d = c.free_of(w); data[at + 2] = eight(d); }
        body.assign(reinterpret_cast<const char*>(data.data()), data.size() * 8);
        if (!clean(body, patch ? "$EndPatches" : "$EndCurves")) throw Skip{};  // nobody can skip such a section
        round_trip(c, s);
    }, 0});
    // long lists
    e.add({"sizes", [=](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        Opt o; o.version = f.version; o.file_type = f.type; o.ext = true; o.vary_values = o.vary_counts = false;
        o.rich = static_cast<int>(c.free_choose(2));
        o.target = c.free_of<std::string>({"curves_ext", "curve.cps", "curve.knots", "patches_ext", "patch.cps", "patch.u", "patch.v"});
        o.length = c.free_of(sweep_lengths(c.thorough));
        if (o.rich && o.length > 4097) throw Skip{};
        round_trip(c, Gen(c, o).spec());
    }, 0, 60});
    e.add({"size-pairs", [=](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        Opt o; o.version = f.version; o.file_type = f.type;
        round_trip(c, Gen(c, sweep_pair(c, o, true)).spec());
    }, 0});
    // the sections in any order among the others, as another writer may put them; loaded by both builds
    e.add({"orders", [=](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        MshSpec s = mini::fixed(f, static_cast<int>(c.free_choose(2)), true);
        ref::File file = ref::content_of(s, true);
        // move each of the three sections to a place of its own
        auto& order = file.order;
        for (const char* n : {"NanoSplineFormat", "Curves", "Patches"}) {
            order.erase(std::remove(order.begin(), order.end(), std::string(n)), order.end());
            const size_t at = 1 + c.free_choose(static_cast<uint32_t>(order.size()));
            order.insert(order.begin() + static_cast<long>(at), n);
        }
        struct Tight : ref::Style { bool nl; std::string after_binary() override { return nl ? "\n" : ""; } } st;
        st.nl = c.free_flag();
        if (!f.type && !st.nl) throw Skip{};
        const std::string bytes = ref::Encoder(file, st).file();
        c.evaluated(); c.state(bytes); c.nontrivial(fnv(bytes));
        if (c.want_desc) c.describe(hexdump(bytes, 6000));
        const Loaded l = load_bytes(bytes);
        c.step();
        c.check(l.ok, "a file with spline sections elsewhere is refused: " + l.error);
        const std::string m = oracle::mismatch(file, l.spec, true);
        c.check(m.empty(), m);
        cross(c, bytes, l.spec, "file with spline sections elsewhere");
        c.traced(); c.tag("order");
    }, 0});
    return run_main(e);
}
