// C12: validate_spec accepts exactly the consistent specifications.
#include "mini.h"
#include <algorithm>
using namespace mc; using namespace sp; using namespace gen;
#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool EXT = true;
#else
constexpr bool EXT = false;
#endif

// ---- the rules, written from the documentation of the structures (README)
struct Rules { bool core = true, element_size = true, totals = true, post = true; bool all() const { return core && element_size && totals && post; } };
static Rules judge(const MshSpec& s) {
    Rules r;
    const Nodes& n = s.nodes; const Elements& e = s.elements;
    auto core = [&](bool b) { if (!b) r.core = false; };
    core(n.num_entity_blocks == n.entity_blocks.size());
    core(e.num_entity_blocks == e.entity_blocks.size());
    core(n.min_node_tag <= n.max_node_tag);
    core(e.min_element_tag <= e.max_element_tag);
    auto in_nodes = [&](size_t t) { return n.min_node_tag <= t && t <= n.max_node_tag; };
    auto in_elems = [&](size_t t) { return e.min_element_tag <= t && t <= e.max_element_tag; };
    size_t total = 0;
    for (auto& b : n.entity_blocks) {
        total += b.num_nodes_in_block;
        core(b.tags.size() == b.num_nodes_in_block);
        core(b.data.size() == b.num_nodes_in_block * (3 + (b.parametric ? static_cast<size_t>(b.entity_dim) : 0)));
        for (size_t t : b.tags) core(in_nodes(t));
    }
    if (total != n.num_nodes) r.totals = false;
    total = 0;
    for (auto& b : e.entity_blocks) {
        total += b.num_elements_in_block;
        const Type* t = type_info(b.element_type);
        if (!t || b.data.size() != b.num_elements_in_block * (t->nodes + 1)) { r.element_size = false; continue; }
        for (size_t j = 0; j < b.data.size(); j++) core(j % (t->nodes + 1) ? in_nodes(b.data[j]) : in_elems(b.data[j]));
    }
    if (total != e.num_elements) r.totals = false;
    auto post = [&](const std::vector<Data>& v, bool en) {
        for (auto& d : v) {
            auto& h = d.header;
            if (h.int_tags.size() < 3 || h.int_tags[1] < 0 || h.int_tags[2] < 0 || static_cast<size_t>(h.int_tags[2]) != d.entries.size()) { r.post = false; continue; }
            for (auto& x : d.entries) {
                if (en && x.num_nodes_per_element < 0) { r.post = false; continue; }
                if (x.data.size() != static_cast<size_t>(h.int_tags[1]) * (en ? static_cast<size_t>(x.num_nodes_per_element) : 1)) r.post = false;
            }
        }
    };
    post(s.node_data, false); post(s.element_data, false); post(s.element_node_data, true);
    return r;
}
// The library divides by the number of elements of a block, and by data.size() divided by it.
static bool divides_by_zero(const MshSpec& s) {
    for (auto& b : s.elements.entity_blocks) if (b.data.size() < b.num_elements_in_block || b.num_elements_in_block == 0) return true;
    return false;
}

// ---- deviations from a consistent specification
struct Edit {
    Ctx& c;
    std::string log;
    size_t count = 0;
    explicit Edit(Ctx& x) : c(x) {}
    void note(const std::string& n, const std::string& what) { log += n + " " + what + "; "; count++; }
    void z(const std::string& n, size_t& v, size_t lo = 0, size_t hi = 0) {
        switch (c.choose(8)) {
        case 0: return;
        case 1: v++; break;
        case 2: v--; break;
        case 3: v = 0; break;
        case 4: v = std::numeric_limits<size_t>::max(); break;
        case 5: v *= 2; break;
        case 6: if (v == lo || !hi) throw Skip{}; v = lo; break;
        default: if (v == hi || !hi) throw Skip{}; v = hi; break;
        }
        note(n, "= " + std::to_string(v));
    }
    void i(const std::string& n, int& v, std::initializer_list<int> to) {
        const uint32_t k = c.choose(static_cast<uint32_t>(to.size()) + 1);
        if (!k) return;
        const int x = *(to.begin() + (k - 1));
        if (x == v) throw Skip{};
        v = x;
        note(n, "= " + std::to_string(v));
    }
    template <class T> void list(const std::string& n, std::vector<T>& v) {
        switch (c.choose(5)) {
        case 0: return;
        case 1: v.push_back(v.empty() ? T() : v.back()); note(n, "one more"); break;
        case 2: if (v.empty()) throw Skip{}; v.pop_back(); note(n, "one less"); break;
        case 3: if (v.empty()) throw Skip{}; v.clear(); note(n, "empty"); break;
        default: if (v.empty()) throw Skip{}; { const size_t k = v.size(); for (size_t q = 0; q < k; q++) v.push_back(v[q]); } note(n, "doubled"); break;
        }
    }
    void nodes(Nodes& n) {
        const size_t lo = n.min_node_tag, hi = n.max_node_tag;
        z("nodes.num_entity_blocks", n.num_entity_blocks); z("nodes.num_nodes", n.num_nodes);
        z("nodes.min_node_tag", n.min_node_tag, hi, hi + 1); z("nodes.max_node_tag", n.max_node_tag, lo ? lo - 1 : 0, lo);
        list("nodes.entity_blocks", n.entity_blocks);
        for (size_t k = 0; k < n.entity_blocks.size() && k < 3; k++) {
            auto& b = n.entity_blocks[k];
            const std::string p = "nodes.entity_blocks[" + std::to_string(k) + "].";
            z(p + "num_nodes_in_block", b.num_nodes_in_block);
            i(p + "entity_dim", b.entity_dim, {0, 1, 2, 3});
            i(p + "parametric", b.parametric, {0, 1});
            list(p + "tags", b.tags); list(p + "data", b.data);
            for (size_t j = 0; j < b.tags.size() && j < 2; j++) z(p + "tags[" + std::to_string(j) + "]", b.tags[j], lo, hi);
            if (b.tags.size() > 2) z(p + "tags.back", b.tags.back(), lo, hi);
        }
    }
    void elements(Elements& e, const Nodes& n) {
        const size_t lo = e.min_element_tag, hi = e.max_element_tag;
        z("elements.num_entity_blocks", e.num_entity_blocks); z("elements.num_elements", e.num_elements);
        z("elements.min_element_tag", e.min_element_tag, hi, hi + 1); z("elements.max_element_tag", e.max_element_tag, lo ? lo - 1 : 0, lo);
        list("elements.entity_blocks", e.entity_blocks);
        for (size_t k = 0; k < e.entity_blocks.size() && k < 3; k++) {
            auto& b = e.entity_blocks[k];
            const std::string p = "elements.entity_blocks[" + std::to_string(k) + "].";
            z(p + "num_elements_in_block", b.num_elements_in_block);
            i(p + "element_type", b.element_type, {0, 1, 2, 3, 8, 15, 21, 31, 32, -1, 2147483647});
            i(p + "entity_dim", b.entity_dim, {0, 1, 2, 3});
            list(p + "data", b.data);
            for (size_t j = 0; j < b.data.size() && j < 10; j++) z(p + "data[" + std::to_string(j) + "]", b.data[j], n.min_node_tag, n.max_node_tag);
            if (b.data.size() > 10) z(p + "data.back", b.data.back(), n.min_node_tag, n.max_node_tag);
        }
    }
    void data(const std::string& n, std::vector<Data>& v) {
        for (size_t k = 0; k < v.size() && k < 2; k++) {
            auto& d = v[k];
            const std::string p = n + "[" + std::to_string(k) + "].";
            list(p + "int_tags", d.header.int_tags);
            if (d.header.int_tags.size() > 1) i(p + "int_tags[1]", d.header.int_tags[1], {0, 1, 2, 3, -1, 2147483647});
            if (d.header.int_tags.size() > 2) i(p + "int_tags[2]", d.header.int_tags[2], {0, 1, 2, 3, -1, 2147483647});
            list(p + "entries", d.entries);
            for (size_t j = 0; j < d.entries.size() && j < 2; j++) {
                list(p + "entry.data", d.entries[j].data);
                if (n == "element_node_data") i(p + "entry.num_nodes_per_element", d.entries[j].num_nodes_per_element, {0, 1, 2, 3, -1, 2147483647});
            }
        }
    }
};

enum Verdict { ACCEPT, REFUSE };
static Verdict verdict(Ctx& c, const MshSpec& s) {
    c.step();
    try { validate_spec(s); return ACCEPT; } catch (const std::exception&) { return REFUSE; }
}
static void decide(Ctx& c, const MshSpec& s, const std::string& log) {
    c.evaluated();
    const std::string before = image(s);
    c.state(before);
    if (c.want_desc) c.describe("deviations: " + log + "\n" + dump(s).substr(0, 6000));
    const Rules r = judge(s);
    if (!r.all()) c.nontrivial(fnv(before));
    Verdict v;
    if (divides_by_zero(s)) {
        const pid_t p = fork();
        if (p < 0) throw Internal("fork");
        if (p == 0) {
            const int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); close(fd); }
            _exit(verdict(c, s) == ACCEPT ? 0 : 1);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) { c.known("no-elements", "validate_spec crashes on an element block whose data is empty or shorter than its element count"); return; }
        v = WEXITSTATUS(st) ? REFUSE : ACCEPT;
        c.step();
    } else v = verdict(c, s);
    c.check(image(s) == before, "validate_spec modified its argument");
    if (r.all()) c.check(v == ACCEPT, "a consistent specification is refused (" + log + ")");
    else if (v == ACCEPT) {
        if (!r.core) c.fail("an inconsistent specification is accepted (" + log + ")");
        if (!r.element_size) c.known("element-size", "element data that does not fit the element type is accepted (" + log + ")");
        else if (!r.totals) c.known("totals", "num_nodes or num_elements that is not the sum over the blocks is accepted (" + log + ")");
        else c.known("post-processing", "data sections whose sizes disagree with their headers are accepted (" + log + ")");
        return;
    }
    c.traced();
    c.tag(v == ACCEPT ? "consistent" : "inconsistent");
    if (v != ACCEPT) return;
    // what is accepted can be written and read again
    const bool bin = s.mesh_format.file_type != 0, v22 = s.mesh_format.version == "2.2";
    bool fits = true;
    for (auto* d : {&s.node_data, &s.element_data, &s.element_node_data}) for (auto& x : *d) for (auto& y : x.entries) if (y.tag > 2147483647u) fits = false;
    if (v22) { const Flat f = flatten(s); for (auto& x : f.nodes) if (x.tag > 2147483647u) fits = false; for (auto& x : f.elems) { if (x.tag > 2147483647u) fits = false; for (size_t t : x.nodes) if (t > 2147483647u) fits = false; } }
    if (bin && !fits) return;
    const Saved f = save_bytes(s);
    c.step();
    c.check(f.ok, "an accepted specification cannot be saved: " + f.error);
    const Loaded l = load_bytes(f.bytes);
    c.step();
    c.check(l.ok, "an accepted specification was saved, but the file cannot be loaded: " + l.error);
    MshSpec want = stored(s), got = l.spec;
    if (!EXT) { strip_ext(want); strip_ext(got); }
    // 2.2 derives the dimension of an element block from its type
    if (v22) for (auto& b : want.elements.entity_blocks) if (type_info(b.element_type)->dim != b.entity_dim) return;
    const std::string d = v22 ? flat_diff(want, got) : diff(want, got);
    c.check(d.empty(), "an accepted specification comes back different: " + d);
    c.tag("saved and loaded");
}
static MshSpec base(Ctx& c, int kind, const mini::Fmt& f) {
    (void)c;
    MshSpec s = mini::fixed(f, kind == 0 ? 0 : 1, EXT);
    s.entities = Entities();
    if (kind == 2) {  // no element data beyond two blocks
        s.elements.entity_blocks.resize(2); s.elements.num_entity_blocks = 2; s.elements.num_elements = 0;
        for (auto& b : s.elements.entity_blocks) s.elements.num_elements += b.num_elements_in_block;
        size_t a, b, x, y; tag_range(s, a, b, x, y); s.elements.min_element_tag = x; s.elements.max_element_tag = y;
    }
    if (kind == 3) { s.elements = Elements(); }
    if (kind == 4) { s.elements = Elements(); s.nodes = Nodes(); }
    return s;
}

int main(int argc, char** argv) {
    Quiet quiet;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    auto edited = [](Ctx& c, int kind, bool mesh, bool post) {
        const mini::Fmt f = c.free_of(mini::formats());
        MshSpec s = base(c, kind, f);
        Edit ed(c);
        if (mesh) { ed.nodes(s.nodes); ed.elements(s.elements, s.nodes); }
        if (post) { ed.data("node_data", s.node_data); ed.data("element_data", s.element_data); ed.data("element_node_data", s.element_node_data); }
        decide(c, s, ed.log);
    };
    // one deviation of every field of larger specifications
    e.add({"singles", [=](Ctx& c) { edited(c, static_cast<int>(c.free_choose(5)), true, true); }, 1});
    // two (thorough: three) of the small one
    e.add({"small", [=](Ctx& c) { edited(c, 0, true, th); }, th ? 3 : 2});
    e.add({"data", [=](Ctx& c) { edited(c, 0, false, true); }, th ? 3 : 2});
    if (th) e.add({"pairs", [=](Ctx& c) { edited(c, 1 + static_cast<int>(c.free_choose(2)), true, false); }, 2});
    // every specification of the generator's family is consistent
    e.add({"valid", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        Opt o; o.version = f.version; o.file_type = f.type; o.ext = EXT; o.rich = static_cast<int>(c.free_choose(2)); o.finite = true;
        const MshSpec s = Gen(c, o).spec();
        decide(c, s, "valid");
    }, 1});
    // element blocks of every type and count, exact and off by one
    e.add({"types", [](Ctx& c) {
        MshSpec s;
        const mini::Fmt f = c.free_of(mini::formats());
        s.mesh_format.version = f.version; s.mesh_format.file_type = f.type;
        s.nodes = mini::fixed(f, 0, false).nodes;
        const size_t node = s.nodes.entity_blocks[0].tags[0];
        const Type t = c.free_of(types());
        const size_t n = 1 + c.free_choose(4);
        const int off = static_cast<int>(c.free_choose(5)) - 2;
        ElementBlock b; b.element_type = t.type; b.entity_dim = t.dim; b.entity_tag = 1; b.num_elements_in_block = n;
        for (size_t j = 0; j < n; j++) { b.data.push_back(100 + j); for (size_t k = 0; k < t.nodes; k++) b.data.push_back(node); }
        for (int k = 0; k < off; k++) b.data.push_back(node);
        for (int k = off; k < 0; k++) if (!b.data.empty()) b.data.pop_back();
        s.elements.entity_blocks.push_back(b); s.elements.num_entity_blocks = 1; s.elements.num_elements = n;
        s.elements.min_element_tag = 100; s.elements.max_element_tag = 100 + n - 1;
        // every position, replaced by a tag outside
        const uint32_t k = c.choose(static_cast<uint32_t>(b.data.size()) + 1);
        if (k) s.elements.entity_blocks[0].data[k - 1] = c.free_of<size_t>({99, 100 + n, node - 1, node + 1, 0});
        decide(c, s, "type " + std::to_string(t.type) + " x " + std::to_string(n) + ", " + std::to_string(off) + " values too many, position " + std::to_string(k));
    }, 1});
    // sparse and extreme ranges
    e.add({"ranges", [](Ctx& c) {
        MshSpec s = mini::fixed(c.free_of(mini::formats()), 0, EXT);
        static const std::vector<size_t> wide = {0, 1, 2, 3, 4294967295ull, 4294967296ull, 9223372036854775808ull, 18446744073709551615ull}, few = {0, 1, 2, 4294967296ull, 18446744073709551615ull};
        const auto& a = c.thorough ? wide : few;
        s.nodes.min_node_tag = c.free_of(a); s.nodes.max_node_tag = c.free_of(a);
        const size_t t = c.free_of(a);
        s.nodes.entity_blocks[0].tags[0] = t;
        s.elements.entity_blocks[0].data = {c.free_of(a), t, t, c.free_flag() ? t : c.free_of(a)};
        s.elements.min_element_tag = c.free_of<size_t>({0, 1, 3, 4294967296ull}); s.elements.max_element_tag = c.free_of<size_t>({2, 1, 4294967296ull, 18446744073709551615ull});
        decide(c, s, "ranges");
    }, 0});
    return run_main(e);
}
