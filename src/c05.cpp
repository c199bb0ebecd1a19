// C05: chains of format conversions.  For every specification the graph of all states reachable by
// converting to the four formats is explored to closure, so chains of every length are covered.
#include "gen.h"
#include "ref_codec.h"
#include "mini.h"
using namespace mc; using namespace sp; using namespace gen;
#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool EXT = true;
#else
constexpr bool EXT = false;
#endif

struct Fmt { const char* version; int type; };
static const Fmt FMT[4] = {{"4.1", 0}, {"4.1", 1}, {"2.2", 0}, {"2.2", 1}};
static std::string fmt_name(int f) { return std::string(FMT[f].version) + (FMT[f].type ? " binary" : " ascii"); }

static MshSpec neutral(MshSpec s) { s.mesh_format = MeshFormat(); if (!EXT) strip_ext(s); return s; }

static void closure(Ctx& c, const MshSpec& start) {
    struct Node { MshSpec spec; bool flat; std::string path; };
    const MshSpec first = stored(start);
    const std::string want_full = image(neutral(first));
    const std::string want_flat = flat_image(first, false, EXT);
    const PhysMap phys = physical_map(first, false);
    std::string settled, settled_dump;            // what everything is after 2.2 was visited once
    std::map<std::pair<int, bool>, std::string> bytes_of;
    std::deque<Node> todo{{start, false, ""}};
    std::set<std::pair<std::string, bool>> seen{{image(start), false}};
    if (c.want_desc) c.describe("specification:\n" + dump(start).substr(0, 6000));
    while (!todo.empty()) {
        Node n = std::move(todo.front()); todo.pop_front();
        c.state(image(n.spec) + (n.flat ? "f" : "e"));
        for (int f = 0; f < 4; f++) {
            MshSpec s = n.spec;
            s.mesh_format.version = FMT[f].version; s.mesh_format.file_type = FMT[f].type;
            const std::string path = n.path + " -> " + fmt_name(f);
            auto fail = [&](const std::string& m) { c.fail("conversion" + path + ": " + m); };
            const Saved b = save_bytes(s);
            c.step();
            if (!b.ok) fail("save refused: " + b.error);
            Loaded l = load_bytes(b.bytes);
            c.step();
            if (!l.ok) fail("load refused: " + l.error);
            if (l.spec.mesh_format.version != FMT[f].version || l.spec.mesh_format.file_type != FMT[f].type) fail("the format is not the one asked for");
            const bool flat = n.flat || f >= 2;
            if (flat_image(l.spec, false, EXT) != want_flat) fail("content changed: " + first_diff(flat_dump(first, false, EXT), flat_dump(l.spec, false, EXT)));
            const PhysMap p = physical_map(l.spec, false);
            for (auto& x : phys) if (x.second.size() == 1) { auto it = p.find(x.first); if (it == p.end() || it->second != x.second) fail("physical group of entity (" + std::to_string(x.first.first) + ", " + std::to_string(x.first.second) + ") changed"); }
            for (auto& x : p) { auto it = phys.find(x.first); for (int t : x.second) if (it == phys.end() || !it->second.count(t)) fail("entity (" + std::to_string(x.first.first) + ", " + std::to_string(x.first.second) + ") got a physical group"); }
            const MshSpec u = neutral(l.spec);
            const std::string img = image(u);
            if (!flat) { if (img != want_full) fail("something every format on the path represents changed: " + first_diff(dump(neutral(first)), dump(u))); }
            else if (settled.empty()) { settled = img; settled_dump = dump(u); }
            else if (img != settled) fail("the specification still changes: " + first_diff(settled_dump, dump(u)));
            if (!n.path.empty()) {  // the file bytes of a format depend on nothing but whether 2.2 was visited
                auto& k = bytes_of[{f, n.flat}];
                if (k.empty()) k = b.bytes;
                else if (k != b.bytes) fail("the bytes of the file still change");
            }
            if (seen.insert({image(l.spec), flat}).second) todo.push_back({std::move(l.spec), flat, path});
            if (seen.size() > 8) fail("the conversions do not reach a fixpoint");
        }
    }
    c.traced();
    c.tag(std::to_string(seen.size()) + " reachable states");
}

int main(int argc, char** argv) {
    Quiet quiet;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    auto opts = [](Ctx&) { Opt o; o.ext = EXT; o.max_tag = 2147483647; o.finite = true; return o; };
    e.add({"values", [=](Ctx& c) { Opt o = opts(c); o.rich = 1; o.values = th ? 1 : 0; closure(c, Gen(c, o).spec()); }, 1});
    e.add({"pairs", [=](Ctx& c) { Opt o = opts(c); o.vary_values = c.thorough; closure(c, Gen(c, o).spec()); }, 2});
    if (th) e.add({"rich-counts", [=](Ctx& c) { Opt o = opts(c); o.rich = 1; o.vary_values = false; closure(c, Gen(c, o).spec()); }, 2});
    e.add({"sizes", [=](Ctx& c) {
        Opt o = sweep_opt(c, opts(c), EXT);
        if (o.length > (c.thorough ? 70000 : 1100)) throw Skip{};
        closure(c, Gen(c, o).spec());
    }, 0, 60});
    e.add({"size-pairs", [=](Ctx& c) {
        Opt o = sweep_pair(c, opts(c), EXT);
        if (!c.thorough && std::max(o.length, o.length2) > 17) throw Skip{};
        closure(c, Gen(c, o).spec());
    }, 0});
    // sequences of element and node blocks over shared entities, with and without physical groups
    e.add({"blocks", [=](Ctx& c) {
        Opt o = opts(c); o.vary_values = o.vary_counts = false; o.rich = 0; o.ext = EXT;
        MshSpec s = Gen(c, o).spec();
        s.entities = Entities(); s.nodes = Nodes(); s.elements = Elements();
        for (int t = 1; t <= 2; t++) {
            CurveEntity q; q.tag = t; for (int k = 0, n = static_cast<int>(c.free_choose(3)); k < n; k++) q.physical_group_tags.push_back(50 + 10 * t + k);
            if (t == 1 || c.free_flag()) s.entities.curves.push_back(q);
        }
        size_t tag = 4;
        const uint32_t nb = 1 + c.free_choose(2);
        std::vector<size_t> tags;
        for (uint32_t i = 0; i < nb; i++) {
            NodeBlock b; b.entity_dim = 1; b.entity_tag = 1 + static_cast<int>(c.free_choose(2)); b.parametric = static_cast<int>(i);
            for (int k = 0; k < 2; k++) { b.tags.push_back(tag); tags.push_back(tag); tag += 5; for (int q = 0; q < 3 + b.parametric; q++) b.data.push_back(static_cast<double>(tag) / 3.0 + q); }
            b.num_nodes_in_block = 2; s.nodes.num_nodes += 2; s.nodes.entity_blocks.push_back(b);
        }
        s.nodes.num_entity_blocks = nb;
        const uint32_t ne = c.free_choose(c.thorough ? 5 : 4);
        for (uint32_t i = 0; i < ne; i++) {
            ElementBlock b; b.element_type = c.free_of<int>({1, 15}); b.entity_dim = b.element_type == 1 ? 1 : 0; b.entity_tag = 1 + static_cast<int>(c.free_choose(3));
            const uint32_t m = c.free_choose(2) ? 0 : 1 + i % 2;
            for (uint32_t k = 0; k < m; k++) { b.data.push_back(90 - 3 * i + k); for (int q = 0; q < (b.element_type == 1 ? 2 : 1); q++) b.data.push_back(tags[(i + k + static_cast<uint32_t>(q)) % tags.size()]); }
            b.num_elements_in_block = m; s.elements.num_elements += m; s.elements.entity_blocks.push_back(b);
        }
        s.elements.num_entity_blocks = ne;
        tag_range(s, s.nodes.min_node_tag, s.nodes.max_node_tag, s.elements.min_element_tag, s.elements.max_element_tag);
        closure(c, s);
    }, 0});
    // every pair of element types next to each other
    e.add({"type-pairs", [=](Ctx& c) {
        Opt o = opts(c); o.vary_values = o.vary_counts = false; o.rich = 0; o.ext = EXT;
        closure(c, mini::type_pair(c, Gen(c, o).spec()));
    }, 0});
    // presence of every section
    e.add({"shapes", [=](Ctx& c) {
        Opt o = opts(c); o.vary_values = o.vary_counts = false; o.rich = 1;
        MshSpec s = Gen(c, o).spec();
        auto cut = [&](auto& v, uint32_t most) { const uint32_t n = c.free_choose(most + 1); if (v.size() < n) throw Skip{}; v.resize(n); };
        cut(s.physical_groups, 1);
        cut(s.entities.points, 1); cut(s.entities.curves, 1); cut(s.entities.surfaces, 1); cut(s.entities.volumes, 1);
        if (c.free_flag()) { s.nodes = Nodes(); s.elements = Elements(); }
        else if (c.free_flag()) s.elements = Elements();
        cut(s.node_data, 2); cut(s.element_data, 2); cut(s.element_node_data, 2);
        if (EXT) { cut(s.curves, 1); cut(s.patches, 1); }
        closure(c, s);
    }, 0});
    // starting from a 2.2 file by another writer: any tag lists, several physical groups per entity
    e.add({"foreign", [=](Ctx& c) {
        ref::File f; f.format.version = "2.2"; f.format.file_type = static_cast<int>(c.free_choose(2)); f.order = {"MeshFormat", "Nodes", "Elements"};
        for (size_t i = 0; i < 4; i++) f.nodes.push_back({3 + 2 * i, 0.1 * static_cast<double>(i), 1.5, 2.5});
        const uint32_t n = c.free_choose(4);
        for (uint32_t i = 0; i < n; i++) {
            static const std::vector<std::vector<int>> menu = {{7, 1}, {8, 1}, {7, 2}, {1}, {0, 1}, {}, {7, 1, 1, 4}};
            ref::Elem22 q; q.tag = 30 - 5 * i; q.type = c.free_of<int>({15, 1}); q.tags = c.free_of(menu);
            for (size_t k = 0; k < type_info(q.type)->nodes; k++) q.nodes.push_back(3 + 2 * ((i + k) % 4));
            f.elems.push_back(q);
        }
        ref::Style st;
        const Loaded l = load_bytes(ref::Encoder(f, st).file());
        c.step();
        c.check(l.ok, "a well-formed 2.2 file is refused: " + l.error);
        closure(c, l.spec);
    }, 0});
    // relations between the values of one array
    e.add({"patterns", [=](Ctx& c) {
        Opt o = opts(c); o.vary_values = o.vary_counts = false; o.rich = 0; o.ext = EXT;
        closure(c, mini::patterns(c, Gen(c, o).spec()));
    }, 0});
    return run_main(e);
}
