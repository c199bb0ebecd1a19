// C13: element type tables, for every integer, and their use by load and save.
#include "mini.h"
#include "oracle.h"
#include <algorithm>
using namespace mc; using namespace sp; using namespace gen;
#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool EXT = true;
#else
constexpr bool EXT = false;
#endif

// "" or what is wrong with the two queries
static std::string query(int t) {
    const Type* want = type_info(t);
    size_t n = 0; int d = -1;
    int how = 0;
    try { n = nodes_per_element(t); } catch (const UnsupportedFeature&) { how = 1; } catch (...) { how = 2; }
    int how2 = 0;
    try { d = get_element_dim(t); } catch (const UnsupportedFeature&) { how2 = 1; } catch (...) { how2 = 2; }
    if (how == 2 || how2 == 2) return "throws something other than UnsupportedFeature";
    if (want) {
        if (how) return "nodes_per_element refuses it";
        if (how2) return "get_element_dim refuses it";
        if (n != want->nodes) return "nodes_per_element is " + std::to_string(n) + ", documented " + std::to_string(want->nodes);
        if (d != want->dim) return "get_element_dim is " + std::to_string(d) + ", documented " + std::to_string(want->dim);
        return "";
    }
    if (!how) return "nodes_per_element returns " + std::to_string(n);
    if (!how2) return "get_element_dim returns " + std::to_string(d);
    return "";
}
static void ask(Ctx& c, int t) {
    c.step(2); c.evaluated();
    const std::string m = query(t);
    if (!m.empty()) { c.describe("element type " + std::to_string(t)); c.fail("element type " + std::to_string(t) + ": " + m); }
    if (t >= -64 && t <= 192) { c.state(static_cast<uint64_t>(t)); c.traced(); }
    if (type_info(t)) c.nontrivial(static_cast<uint64_t>(t));
}

struct Block { int type; size_t count; };
// Elements of the given blocks; every element refers to its nodes in a pattern of its own.
static MshSpec mesh(const mini::Fmt& f, const std::vector<Block>& blocks) {
    MshSpec s;
    s.mesh_format.version = f.version; s.mesh_format.file_type = f.type;
    NodeBlock nb;
    nb.entity_dim = 0; nb.entity_tag = 0;
    for (size_t i = 0; i < 64; i++) { nb.tags.push_back(5 + 2 * i); for (int k = 0; k < 3; k++) nb.data.push_back(static_cast<double>(3 * i) + k); }
    nb.num_nodes_in_block = 64;
    s.nodes.entity_blocks.push_back(nb);
    s.nodes.num_entity_blocks = 1; s.nodes.num_nodes = 64; s.nodes.min_node_tag = 5; s.nodes.max_node_tag = 5 + 126;
    size_t tag = 900, q = 0;
    for (size_t i = 0; i < blocks.size(); i++) {
        ElementBlock b;
        const Type* t = type_info(blocks[i].type);
        b.element_type = t->type; b.entity_dim = t->dim; b.entity_tag = 3 + static_cast<int>(i); b.num_elements_in_block = blocks[i].count;
        for (size_t j = 0; j < blocks[i].count; j++) { b.data.push_back(tag++); for (size_t k = 0; k < t->nodes; k++) b.data.push_back(nb.tags[(q++ * 7) % 64]); }
        s.elements.num_elements += blocks[i].count;
        s.elements.entity_blocks.push_back(b);
    }
    s.elements.num_entity_blocks = s.elements.entity_blocks.size();
    s.elements.min_element_tag = 900; s.elements.max_element_tag = tag - 1;
    return s;
}
static void used(Ctx& c, const MshSpec& s, bool by_library) {
    c.evaluated();
    const mini::Encoded e = mini::encode(s, EXT);
    if (c.want_desc) c.describe(dump(s).substr(0, 4000));
    c.state(e.bytes); c.nontrivial(fnv(e.bytes));
    if (by_library) {
        const Saved f = save_bytes(s);
        c.step();
        c.check(f.ok, "save refused: " + f.error);
        ref::File d;
        try { d = ref::Decoder(f.bytes).decode(); } catch (const std::exception& x) { c.fail(std::string("the saved file is malformed: ") + x.what()); }
        const Flat want = flatten(s);
        if (s.mesh_format.version == std::string("2.2")) {
            c.check(d.elems.size() == want.elems.size(), "saved number of elements");
            for (size_t i = 0; i < want.elems.size(); i++) c.check(d.elems[i].type == want.elems[i].type && d.elems[i].nodes == want.elems[i].nodes && d.elems[i].tag == want.elems[i].tag, "element " + std::to_string(i) + " is saved with other nodes");
        } else {
            MshSpec a = s, b = d.content;
            a.nodes = Nodes(); b.nodes = Nodes(); a.mesh_format = b.mesh_format;
            strip_ext(a); strip_ext(b);
            const std::string m = diff(a, b);
            c.check(m.empty(), "saved elements differ: " + m);
        }
    } else {
        const Loaded l = load_bytes(e.bytes);
        c.step();
        c.check(l.ok, "load refused: " + l.error);
        const std::string m = oracle::mismatch(e.file, l.spec, EXT);
        c.check(m.empty(), m);
    }
    c.traced();
    c.tag(by_library ? "saved" : "loaded");
}

int main(int argc, char** argv) {
    Quiet quiet;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    constexpr uint32_t SLICE = 1u << 15;
    e.add({"near", [](Ctx& c) { ask(c, -100000 + static_cast<int>(c.free_choose(200001))); c.tag("queried"); }, 0});
    // whole slices of the 2^32 integers: all of them (thorough), or those around powers of two
    e.add({"integers", [](Ctx& c) {
        uint32_t slice;
        if (c.thorough) slice = c.free_choose((1u << 31) / (SLICE / 2));
        else { const uint32_t n = (1u << 31) / (SLICE / 2); slice = c.free_of<uint32_t>({0, 1, 2, n - 1, n - 2, n / 2 - 1, n / 2, n / 4, n / 4 - 1, 3 * (n / 4), 3 * (n / 4) - 1, 511, 512, n - 512, n - 513, 8191}); }
        const uint32_t from = slice * SLICE;
        for (uint32_t i = 0; i < SLICE; i++) ask(c, static_cast<int>(from + i));
        c.state(fnv(std::string("slice"), slice));
        c.tag("slice of 2^15 integers");
    }, 0, 120});
    // patterns of bits that a narrowing or a wrong range check would confuse with a small type
    e.add({"aliases", [](Ctx& c) {
        const int low = -40 + static_cast<int>(c.free_choose(300));
        const uint32_t k = c.free_choose(25);  // shift of the upper part
        const uint32_t up = c.free_of<uint32_t>({0, 1, 2, 3, 5, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffff, 0xffffff});
        ask(c, static_cast<int>(static_cast<uint32_t>(low) + (up << (k + 7))));
        c.tag("queried");
    }, 0});
    e.add({"use", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const bool lib = c.free_flag();
        const int t = 1 + static_cast<int>(c.free_choose(31));
        used(c, mesh(f, {{t, 1 + c.free_choose(c.thorough ? 40 : 9)}}), lib);
    }, 0});
    e.add({"use-pairs", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const bool lib = c.free_flag();
        const int t = 1 + static_cast<int>(c.free_choose(31)), u = 1 + static_cast<int>(c.free_choose(31));
        if (t == u) throw Skip{};
        std::vector<Block> b{{t, 1 + c.free_choose(2)}, {u, 1 + c.free_choose(2)}};
        if (c.free_flag()) b.push_back({t, 1});
        used(c, mesh(f, b), lib);
    }, 0});
    if (th) e.add({"use-triples", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const bool lib = c.free_flag();
        const int t = 1 + static_cast<int>(c.free_choose(31)), u = 1 + static_cast<int>(c.free_choose(31)), v = 1 + static_cast<int>(c.free_choose(31));
        used(c, mesh(f, {{t, 1}, {u, 2}, {v, 1}}), lib);
    }, 0});
    return run_main(e);
}
