// C04: every well-formed file loads as the mesh it denotes.
#include "gen.h"
#include "oracle.h"
#include "mini.h"
using namespace mc; using namespace sp; using namespace gen;
#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool EXT = true;
#else
constexpr bool EXT = false;
#endif

// ---- legal freedoms
static const std::vector<std::string> SEPS = {" ", "  ", "\t", "\n", " \t ", "\r\n", "          "};
static const std::vector<std::string> EOLS = {"\n", "\r\n", " \n", "\n\n", "\t\n  ", "\n\t", "\n\n\n", " "};
static const std::vector<std::string> GAPS = {"", "\n", "\r\n", "\n\n", "  ", "\t"};

static std::string spell_unsigned(uint64_t v, uint32_t k) {
    const std::string s = std::to_string(v);
    switch (k) { case 1: return "+" + s; case 2: return "0" + s; case 3: return "+000" + s; default: return s; }
}
static std::string spell_int(int64_t v, uint32_t k) {
    if (v >= 0) return spell_unsigned(static_cast<uint64_t>(v), k);
    const std::string s = std::to_string(-v);
    switch (k) { case 1: case 2: return "-0" + s; case 3: return "-000" + s; default: return "-" + s; }
}
constexpr uint32_t REALS = 10;
static std::string spell_real(double v, uint32_t k) {
    char t[512];
    switch (k) {
    case 1: snprintf(t, sizeof t, "%.17e", v); return t;
    case 2: snprintf(t, sizeof t, "%.20E", v); return t;
    case 3: snprintf(t, sizeof t, "%+.17g", v); return t;
    case 4: snprintf(t, sizeof t, "%.60f", v); return t;             // many decimals
    case 5: snprintf(t, sizeof t, "%040.20f", v); return t;          // leading zeros
    case 6: {                                                        // ".5" for 0.5
        snprintf(t, sizeof t, "%.17f", v);
        std::string s = t;
        if (s.compare(0, 2, "0.") == 0) return s.substr(1);
        if (s.compare(0, 3, "-0.") == 0) return "-" + s.substr(2);
        return s;
    }
    case 7: {                                                        // "3." for 3
        if (v == static_cast<double>(static_cast<int64_t>(v))) return std::to_string(static_cast<int64_t>(v)) + ".";
        snprintf(t, sizeof t, "%.25g", v); return t;
    }
    case 8: {                                                        // "5e0003"
        snprintf(t, sizeof t, "%.17e", v);
        std::string s = t; const size_t e = s.find('e');
        return s.substr(0, e + 2) + "000" + s.substr(e + 2);
    }
    case 9: {                                                        // without an exponent sign
        snprintf(t, sizeof t, "%.17e", v);
        std::string s = t; const size_t e = s.find("e+");
        return e == std::string::npos ? s : s.substr(0, e + 1) + s.substr(e + 2);
    }
    default: snprintf(t, sizeof t, "%.17g", v); return t;
    }
}

struct Free : ref::Style {
    Ctx& c;
    bool local;  // every occurrence asks (counted as a deviation); otherwise the settings below
    size_t g_sep = 0, g_eol = 0, g_gap = 0, g_int = 0, g_real = 0, g_after = 0, g_group = 0;
    bool last_newline = true;
    size_t sections_left = 0;
    explicit Free(Ctx& ctx, bool l) : c(ctx), local(l) {}
    uint32_t ask(size_t n, size_t g) { return local ? c.choose(static_cast<uint32_t>(n)) : static_cast<uint32_t>(g); }
    std::string sep() override { return SEPS[ask(SEPS.size(), g_sep)]; }
    std::string eol() override { return EOLS[ask(EOLS.size(), g_eol)]; }
    std::string marker_eol() override { return EOLS[ask(EOLS.size() - 1, g_eol == EOLS.size() - 1 ? 0 : g_eol)]; }
    std::string before_section() override { return GAPS[ask(GAPS.size(), g_gap)]; }
    std::string after_binary() override { return ask(2, g_after) ? "" : "\n"; }
    std::string after_section() override {
        if (--sections_left == 0) return (local ? !c.flag() : last_newline) ? "\n" : "";
        return EOLS[ask(3, g_eol % 3)];
    }
    std::string u(uint64_t v) override { return spell_unsigned(v, ask(4, g_int)); }
    std::string i(int64_t v) override { return spell_int(v, ask(4, g_int)); }
    std::string d(double v) override { return spell_real(v, ask(REALS, g_real)); }
    size_t group(size_t most) override { return local ? most - c.choose(static_cast<uint32_t>(most)) : (g_group == 0 ? most : g_group == 1 ? 1 : (most + 1) / 2); }
};

static void check_load(Ctx& c, const ref::File& f, const std::string& bytes, bool entity_known = true) {
    c.state(bytes);
    if (c.want_desc) c.describe("file:\n" + hexdump(bytes, 6000));
    const Loaded l = load_bytes(bytes);
    c.step();
    c.check(l.ok, "a well-formed file is refused: " + l.kind + ": " + l.error);
    const std::string m = oracle::mismatch(f, l.spec, EXT, entity_known);
    c.check(m.empty(), m);
    c.traced();
    c.tag(f.format.version + (f.format.file_type ? " binary" : " ascii"));
}

// A small content with every section; values have many exact spellings.
static MshSpec small_content(const std::string& version, int ft, bool big) {
    static mc::Ctx dummy;
    Opt o; o.version = version; o.file_type = ft; o.vary_values = o.vary_counts = false; o.rich = big; o.ext = EXT;
    dummy.begin({});
    MshSpec s = Gen(dummy, o).spec();
    const double v[] = {0.5, -0.25, 3, 1234567.875, -8192, 0.0009765625, 0, 1.5};
    size_t k = 0;
    auto next = [&] { return v[k++ % 8]; };
    for (auto& b : s.nodes.entity_blocks) for (auto& x : b.data) x = next();
    for (auto& p : s.entities.points) { p.x = next(); p.y = next(); p.z = next(); p.tag = -p.tag; }
    auto bx = [&](auto& e) { e.min_x = next(); e.min_y = next(); e.min_z = next(); e.max_x = next(); e.max_y = next(); e.max_z = next(); };
    for (auto& e : s.entities.curves) { bx(e); e.boundary_point_tags[0] *= -1; }
    for (auto& e : s.entities.surfaces) { bx(e); e.boundary_curve_tags[0] *= -1; }
    for (auto& e : s.entities.volumes) { bx(e); e.boundary_surface_tags[0] *= -1; }
    for (auto* dv : {&s.node_data, &s.element_data, &s.element_node_data}) for (auto& d : *dv) {
        for (auto& x : d.header.real_tags) x = next();
        for (auto& e : d.entries) for (auto& x : e.data) x = next();
    }
    for (auto& q : s.curves) for (auto& x : q.data) x = next();
    for (auto& q : s.patches) for (auto& x : q.data) x = next();
    return s;
}

int main(int argc, char** argv) {
    Quiet quiet;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    std::map<std::string, ref::File> contents;
    for (const char* v : {"2.2", "4.1"}) for (int ft = 0; ft < 2; ft++) for (int big = 0; big < 2; big++)
        contents[std::string(v) + std::to_string(ft) + std::to_string(big)] = ref::content_of(small_content(v, ft, big), EXT);
    auto content = [&](Ctx& c, int big) -> const ref::File& { const std::string v = c.free_of<std::string>({"4.1", "2.2"}); return contents.at(v + std::to_string(c.free_choose(2)) + std::to_string(big)); };

    // every single freedom at every place of the rich file; every pair (thorough: triple) in the small one
    e.add({"places", [&](Ctx& c) {
        const ref::File& f = content(c, 1);
        Free st(c, true); st.sections_left = f.order.size();
        check_load(c, f, ref::Encoder(f, st).file());
    }, 1});
    e.add({"pairs", [&](Ctx& c) {
        ref::File f = content(c, 0);
        // one part of the file at a time keeps the number of places small
        static const std::vector<std::vector<std::string>> parts = {
            {"MeshFormat", "PhysicalNames", "Entities"}, {"MeshFormat", "Nodes", "Elements"}, {"MeshFormat", "NodeData"}, {"MeshFormat", "ElementData", "ElementNodeData"}, {"MeshFormat", "NanoSplineFormat", "Curves", "Patches"}};
        const uint32_t k = c.free_choose(EXT ? 5 : 4);
        std::vector<std::string> order;
        for (auto& n : f.order) if (std::find(parts[k].begin(), parts[k].end(), n) != parts[k].end()) order.push_back(n);
        f.order = order;
        auto has = [&](const char* n) { return std::find(order.begin(), order.end(), n) != order.end(); };
        MshSpec s; s.mesh_format = f.format;
        if (has("PhysicalNames")) s.physical_groups = f.content.physical_groups;
        if (has("Entities")) s.entities = f.content.entities;
        if (has("Nodes")) { s.nodes = f.content.nodes; s.elements = f.content.elements; } else { f.nodes.clear(); f.elems.clear(); }
        if (has("NodeData")) s.node_data = f.content.node_data;
        if (has("ElementData")) { s.element_data = f.content.element_data; s.element_node_data = f.content.element_node_data; }
        if (has("Curves")) { s.nanospline_format = f.content.nanospline_format; s.curves = f.content.curves; s.patches = f.content.patches; }
        f.content = s;
        Free st(c, true); st.sections_left = order.size();
        check_load(c, f, ref::Encoder(f, st).file());
    }, th ? 3 : 2});
    // whole-file styles: full product
    e.add({"styles", [&](Ctx& c) {
        const ref::File& f = content(c, static_cast<int>(c.free_choose(2)));
        Free st(c, false);
        st.sections_left = f.order.size();
        if (f.format.file_type == 0) { st.g_sep = c.free_choose(static_cast<uint32_t>(SEPS.size())); st.g_eol = c.free_choose(static_cast<uint32_t>(EOLS.size())); st.g_real = c.free_choose(REALS); }
        else { st.g_after = c.free_choose(2); st.g_group = c.free_choose(3); }
        st.g_gap = c.free_choose(static_cast<uint32_t>(GAPS.size()));
        st.g_int = c.free_choose(4);
        st.last_newline = !c.free_flag();
        check_load(c, f, ref::Encoder(f, st).file());
    }, 0});
    // every order of the sections after the header
    e.add({"orders", [&](Ctx& c) {
        ref::File f = content(c, 0);
        Free st(c, false); st.g_after = c.free_choose(2);
        std::vector<std::string> left(f.order.begin() + 1, f.order.end()), order{"MeshFormat"};
        if (EXT) left.resize(std::min<size_t>(left.size(), 8));
        if (EXT) { f.content.patches.clear(); if (std::find(left.begin(), left.end(), "NanoSplineFormat") == left.end()) f.content.nanospline_format = NanoSplineFormat(); if (std::find(left.begin(), left.end(), "Curves") == left.end()) f.content.curves.clear();
            left.erase(std::remove(left.begin(), left.end(), "Patches"), left.end()); }
        while (!left.empty()) { const uint32_t k = c.free_choose(static_cast<uint32_t>(left.size())); order.push_back(left[k]); left.erase(left.begin() + k); }
        f.order = order; st.sections_left = order.size();
        check_load(c, f, ref::Encoder(f, st).file());
    }, 0});
    // repeated data sections in every interleaving with nodes and elements
    e.add({"repeats", [&](Ctx& c) {
        ref::File f = content(c, 1);
        f.content.physical_groups.clear(); f.content.entities = Entities();
        if (EXT) { f.content.curves.clear(); f.content.patches.clear(); f.content.nanospline_format = NanoSplineFormat(); }
        for (auto* dv : {&f.content.node_data, &f.content.element_data, &f.content.element_node_data}) while (dv->size() < 2) { dv->push_back(dv->back()); dv->back().header.int_tags[0]++; }
        if (f.format.version == "2.2") for (auto& q : f.elems) if (q.tags.size() > 1) q.tags = {q.tags[1]};
        std::map<std::string, int> left = {{"Nodes", 1}, {"Elements", 1}, {"NodeData", 2}, {"ElementData", 2}, {"ElementNodeData", 2}};
        f.order = {"MeshFormat"};
        for (;;) {
            std::vector<std::string> o;
            for (auto& l : left) if (l.second) o.push_back(l.first);
            if (o.empty()) break;
            const std::string n = c.free_of(o);
            left[n]--; f.order.push_back(n);
        }
        Free st(c, false); st.sections_left = f.order.size();
        check_load(c, f, ref::Encoder(f, st).file());
    }, 0});
    // 2.2 elements: every sequence over types, tag list lengths and tags; every grouping into binary record blocks
    e.add({"elements22", [&](Ctx& c) {
        ref::File f;
        f.format.version = "2.2"; f.format.file_type = static_cast<int>(c.free_choose(2));
        for (size_t i = 0; i < 4; i++) f.nodes.push_back({5 + 2 * i, 0.5 * static_cast<double>(i), 1, 2});
        const uint32_t n = c.free_choose(c.thorough ? 6 : 5);
        bool known = true;
        for (uint32_t i = 0; i < n; i++) {
            ref::Elem22 q;
            q.tag = 100 + 7 * i;
            q.type = c.free_of<int>({15, 2});
            const uint32_t nt = c.free_of<uint32_t>({2, 3, 1, 0, 4});
            if (nt) { q.tags.push_back(nt == 1 ? 9 : c.free_of<int>({4, 6})); }
            if (nt > 1) q.tags.push_back(nt == 2 ? c.free_of<int>({3, 8}) : 3);
            for (uint32_t k = 2; k < nt; k++) q.tags.push_back(static_cast<int>(20 + k));
            if (nt == 0) known = true;
            for (size_t k = 0; k < type_info(q.type)->nodes; k++) q.nodes.push_back(5 + 2 * ((i + k) % 4));
            f.elems.push_back(q);
        }
        f.order = {"MeshFormat", "Nodes", "Elements"};
        struct G : Free { using Free::Free; size_t group(size_t most) override { return most - c.free_choose(static_cast<uint32_t>(most)); } } st(c, false);
        st.sections_left = 3;
        check_load(c, f, ref::Encoder(f, st).file(), known);
    }, 0});
    // element types and tag lists of length 0..40 in 2.2
    e.add({"types22", [&](Ctx& c) {
        ref::File f;
        f.format.version = "2.2"; f.format.file_type = static_cast<int>(c.free_choose(2));
        for (size_t i = 0; i < 60; i++) f.nodes.push_back({1 + i, static_cast<double>(i), 1, 2});
        const Type& t = c.free_of(types());
        const uint32_t nt = c.free_choose(c.thorough ? 300 : 70);
        for (size_t m = 0; m < 2; m++) {
            ref::Elem22 q; q.tag = 10 + m; q.type = t.type;
            for (uint32_t k = 0; k < nt; k++) q.tags.push_back(k < 2 ? static_cast<int>(m + 3 + k) : static_cast<int>(k + 1000));
            for (size_t k = 0; k < t.nodes; k++) q.nodes.push_back(1 + (k * 7 + m) % 60);
            f.elems.push_back(q);
        }
        f.order = {"MeshFormat", "Nodes", "Elements"};
        Free st(c, false); st.sections_left = 3; st.g_group = c.free_choose(2);
        check_load(c, f, ref::Encoder(f, st).file());
    }, 0});
    // 2.2 element tags of any value: partitions, ghosts, zeros, repetitions
    e.add({"tags22", [&](Ctx& c) {
        ref::File f;
        f.format.version = "2.2"; f.format.file_type = static_cast<int>(c.free_choose(2));
        for (size_t i = 0; i < 6; i++) f.nodes.push_back({1 + i, static_cast<double>(i), 1, 2});
        for (int m = 0; m < 3; m++) {
            ref::Elem22 q; q.tag = 10 + static_cast<size_t>(m); q.type = c.of<int>({2, 15, 4});
            const uint32_t nt = m == 2 ? 2 : c.free_choose(m ? 5 : 8);
            for (uint32_t k = 0; k < nt; k++) q.tags.push_back(c.of<int>({static_cast<int>(k) + 5, 0, -1, 1, 2, 3, 4, 5, 6, 10, 15, 255, 256, -2147483647 - 1, 2147483647, -static_cast<int>(k) - 5}));
            for (size_t k = 0; k < type_info(q.type)->nodes; k++) q.nodes.push_back(1 + (k + static_cast<size_t>(m)) % 6);
            f.elems.push_back(q);
        }
        f.order = {"MeshFormat", "Nodes", "Elements"};
        Free st(c, false); st.sections_left = 3; st.g_group = c.free_choose(2);
        check_load(c, f, ref::Encoder(f, st).file());
    }, th ? 3 : 2});
    // every short string as a name
    e.add({"strings", [&](Ctx& c) {
        Opt o; o.version = c.free_of<std::string>({"4.1", "2.2"}); o.file_type = static_cast<int>(c.free_choose(2)); o.vary_values = o.vary_counts = false; o.rich = 0; o.ext = EXT;
        MshSpec s = Gen(c, o).spec();
        const uint32_t where = c.free_choose(5);
        std::vector<std::string*> slot;
        for (auto& g : s.physical_groups) slot.push_back(&g.name);
        slot.resize(std::min<size_t>(slot.size(), 2));
        for (auto* d : {&s.node_data, &s.element_data, &s.element_node_data}) if (!d->empty() && !d->front().header.string_tags.empty()) slot.push_back(&d->front().header.string_tags.back());
        if (where >= slot.size()) throw Skip{};
        std::string t;
        const uint32_t len = c.free_choose(th ? 4 : 3);
        if (len < 3) for (uint32_t i = 0; i < len; i++) t += static_cast<char>(c.free_choose(256));
        else for (uint32_t i = 0; i < len; i++) t += c.free_of<char>({'a', ' ', '"', '\\', '$', '\n', '\r', '\t', '\0', '\x1a', '\xff', '0', '-', '/', '\''});
        *slot[where] = t;
        const ref::File f = ref::content_of(s, EXT);
        ref::Style st;
        check_load(c, f, ref::Encoder(f, st).file());
    }, 0});
    // sections that are present but empty
    e.add({"empty", [&](Ctx& c) {
        ref::File f;
        f.format.version = c.free_of<std::string>({"4.1", "2.2"}); f.format.file_type = static_cast<int>(c.free_choose(2));
        f.order = {"MeshFormat"};
        const bool v22 = f.format.version == "2.2";
        for (const char* n : {"PhysicalNames", "Entities", "Nodes", "Elements", "NodeData", "ElementData", "ElementNodeData"}) {
            if (v22 && std::string(n) == "Entities") continue;
            if (c.free_flag()) {
                f.order.push_back(n);
                Data d; d.header.int_tags = {3, static_cast<int>(c.free_choose(2)), 0};
                if (std::string(n) == "NodeData") f.content.node_data.push_back(d);
                if (std::string(n) == "ElementData") f.content.element_data.push_back(d);
                if (std::string(n) == "ElementNodeData") f.content.element_node_data.push_back(d);
            }
        }
        Free st(c, false); st.sections_left = f.order.size(); st.g_after = c.free_choose(2); st.g_eol = c.free_choose(3);
        check_load(c, f, ref::Encoder(f, st).file());
    }, 0});
    // values and sizes through the independent encoder
    e.add({"values", [&](Ctx& c) {
        Opt o; o.version = c.free_of<std::string>({"4.1", "2.2"}); o.file_type = static_cast<int>(c.free_choose(2)); o.rich = 1; o.ext = EXT; o.unique_entities = o.version == "2.2"; o.values = c.thorough ? 1 : 0;
        const MshSpec s = Gen(c, o).spec();
        const ref::File f = ref::content_of(s, EXT);
        ref::Style st;
        check_load(c, f, ref::Encoder(f, st).file());
    }, 1});
    // one list, and two lists, of many lengths
    for (const bool two : {false, true}) e.add({two ? "size-pairs" : "sizes", [&, two](Ctx& c) {
        Opt o; o.version = c.free_of<std::string>({"4.1", "2.2"}); o.file_type = static_cast<int>(c.free_choose(2));
        o = two ? sweep_pair(c, o, EXT) : sweep_opt(c, o, EXT);
        if (!two && o.rich) throw Skip{};
        const ref::File f = ref::content_of(Gen(c, o).spec(), EXT);
        ref::Style st;
        check_load(c, f, ref::Encoder(f, st).file());
    }, 0, 60});
    // relations between the values of one array
    e.add({"patterns", [&](Ctx& c) {
        Opt o; o.version = c.free_of<std::string>({"4.1", "2.2"}); o.file_type = static_cast<int>(c.free_choose(2)); o.vary_values = o.vary_counts = false; o.rich = 0; o.ext = EXT;
        const MshSpec s = mini::patterns(c, Gen(c, o).spec());
        Free st(c, false); st.g_sep = 0; st.g_group = c.free_choose(2);
        const ref::File f = ref::content_of(s, EXT);
        st.sections_left = f.order.size();
        check_load(c, f, ref::Encoder(f, st).file());
    }, 0});
    return run_main(e);
}
