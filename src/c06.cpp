// C06: what a 2.2 file loads to is consistently grouped and valid.
#define ALLOC_COUNT
#include "alloc_count.h"
#include "gen.h"
#include "ref_codec.h"
using namespace mc; using namespace sp; using namespace gen;

struct Grouping : ref::Style {
    size_t mode = 0;
    size_t group(size_t most) override { return mode == 0 ? most : mode == 1 ? 1 : (most + 1) / 2; }
};

static uint64_t grouping_check(Ctx& c, ref::File& f, size_t mode = 0, bool defined = true) {
    Grouping st; st.mode = mode;
    const std::string bytes = ref::Encoder(f, st).file();
    c.state(bytes);
    if (c.want_desc) c.describe("file:\n" + hexdump(bytes, 6000));
    std::istringstream in(bytes, std::ios::binary | std::ios::in);
    for (const auto& q : f.elems) if (q.tags.empty()) untagged_entity(q.type);
    alloc::reset();
    const Loaded l = load(in);
    const uint64_t cost = alloc::total;
    c.step();
    c.check(l.ok, "a well-formed 2.2 file is refused: " + l.kind + ": " + l.error);
    const MshSpec& s = l.spec;
    const std::string str = structure(s);
    c.check(str.empty(), str);
    // order and content
    const Flat fl = flatten(s);
    c.check(fl.nodes.size() == f.nodes.size(), "number of nodes after grouping");
    for (size_t i = 0; i < f.nodes.size(); i++) {
        const FlatNode &a = f.nodes[i], &b = fl.nodes[i];
        c.check(a.tag == b.tag && bits(a.x) == bits(b.x) && bits(a.y) == bits(b.y) && bits(a.z) == bits(b.z), "node " + std::to_string(i) + " changed or moved");
    }
    c.check(fl.elems.size() == f.elems.size(), "number of elements after grouping");
    std::map<size_t, std::set<std::pair<int, int>>> users;
    std::map<std::pair<int, int>, std::set<int>> phys;
    size_t emin = std::numeric_limits<size_t>::max(), emax = 0, nmin = emin, nmax = 0;
    for (size_t i = 0; i < f.elems.size(); i++) {
        const auto& a = f.elems[i]; const auto& b = fl.elems[i];
        const int dim = type_info(a.type)->dim;
        c.check(a.tag == b.tag && a.type == b.type && a.nodes == b.nodes, "element " + std::to_string(i) + " changed or moved");
        c.check(b.dim == dim, "element " + std::to_string(i) + " is in a block of another dimension");
        if (!a.tags.empty()) {
            const int ent = a.tags.size() > 1 ? a.tags[1] : a.tags[0];
            c.check(b.entity == ent, "element " + std::to_string(i) + " is in a block of another entity");
            if (a.tags.size() > 1) phys[{dim, ent}].insert(a.tags[0]);
        } else c.check(b.entity == untagged_entity(a.type), "element " + std::to_string(i) + ", without tags, has another entity than the same element alone in an ASCII file");
        for (size_t n : a.nodes) users[n].insert({dim, b.entity});
        emin = std::min(emin, a.tag); emax = std::max(emax, a.tag);
    }
    for (auto& n : f.nodes) { nmin = std::min(nmin, n.tag); nmax = std::max(nmax, n.tag); }
    if (f.elems.empty()) emin = emax = 0;
    if (f.nodes.empty()) nmin = nmax = 0;
    // counts and ranges
    c.check(s.nodes.num_nodes == f.nodes.size() && s.elements.num_elements == f.elems.size(), "totals");
    c.check(s.nodes.min_node_tag == nmin && s.nodes.max_node_tag == nmax, "node tag range is " + std::to_string(s.nodes.min_node_tag) + ".." + std::to_string(s.nodes.max_node_tag));
    c.check(s.elements.min_element_tag == emin && s.elements.max_element_tag == emax, "element tag range is " + std::to_string(s.elements.min_element_tag) + ".." + std::to_string(s.elements.max_element_tag));
    // blocks
    for (size_t i = 0; i < s.elements.entity_blocks.size(); i++) {
        auto& b = s.elements.entity_blocks[i];
        c.check(b.num_elements_in_block > 0, "empty element block");
        if (i) { auto& a = s.elements.entity_blocks[i - 1]; c.check(a.entity_dim != b.entity_dim || a.entity_tag != b.entity_tag || a.element_type != b.element_type, "adjacent element blocks are equal"); }
    }
    for (size_t i = 0; i < s.nodes.entity_blocks.size(); i++) {
        auto& b = s.nodes.entity_blocks[i];
        c.check(b.num_nodes_in_block > 0, "empty node block");
        c.check(b.parametric == 0, "parametric node block");
        if (i) { auto& a = s.nodes.entity_blocks[i - 1]; c.check(a.entity_dim != b.entity_dim || a.entity_tag != b.entity_tag, "adjacent node blocks are equal"); }
        for (size_t t : b.tags) {
            auto it = users.find(t);
            if (it == users.end()) c.check(b.entity_dim == 0 && b.entity_tag == 0, "unused node " + std::to_string(t) + " is owned by entity (" + std::to_string(b.entity_dim) + ", " + std::to_string(b.entity_tag) + ")");
            else c.check(it->second.count({b.entity_dim, b.entity_tag}), "node " + std::to_string(t) + " is owned by entity (" + std::to_string(b.entity_dim) + ", " + std::to_string(b.entity_tag) + "), which has no element that uses it");
        }
    }
    // entities
    std::set<std::pair<int, int>> seen;
    auto ents = [&](int dim, auto& v) {
        for (auto& x : v) {
            const std::string n = "entity (" + std::to_string(dim) + ", " + std::to_string(x.tag) + ")";
            c.check(seen.insert({dim, x.tag}).second, n + " appears twice");
            const std::set<int> g(x.physical_group_tags.begin(), x.physical_group_tags.end());
            c.check(g.size() == x.physical_group_tags.size(), n + " lists a physical tag twice");
            auto it = phys.find({dim, x.tag});
            if (it == phys.end()) c.check(g.empty(), n + " has physical tags no element carries");
            else c.check(g == it->second, n + " does not list exactly the physical tags of its elements");
        }
    };
    ents(0, s.entities.points); ents(1, s.entities.curves); ents(2, s.entities.surfaces); ents(3, s.entities.volumes);
    for (auto& p : phys) c.check(seen.count(p.first), "entity (" + std::to_string(p.first.first) + ", " + std::to_string(p.first.second) + ") is missing");
    if (defined) {
        try { validate_spec(s); }
        catch (const std::exception& e) { c.fail(std::string("the loaded specification fails validation: ") + e.what()); }
        c.step();
    }
    c.traced();
    c.check(cost <= 200 * bytes.size() + 65536, "loading " + std::to_string(bytes.size()) + " bytes allocates " + std::to_string(cost) + " bytes");
    c.tag(f.format.file_type ? "binary" : "ascii");
    return cost;
}

static ref::File base(Ctx& c) {
    ref::File f;
    f.format.version = "2.2"; f.format.file_type = static_cast<int>(c.free_choose(2));
    f.order = {"MeshFormat", "Nodes", "Elements"};
    return f;
}
static FlatNode node(size_t tag, size_t i) { return {tag, 0.1 * static_cast<double>(i + 1), 1.5, -static_cast<double>(i)}; }

int main(int argc, char** argv) {
    Quiet quiet;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    // every sequence of elements over types x tag lists x connectivity (nodes 5, 6, 9)
    e.add({"elements", [](Ctx& c) {
        ref::File f = base(c);
        const size_t tags[3] = {5, 6, 9};
        for (size_t i = 0; i < 3; i++) f.nodes.push_back(node(tags[i], i));
        const uint32_t n = c.free_choose(4);
        for (uint32_t i = 0; i < n; i++) {
            ref::Elem22 q; q.tag = 30 - 5 * i; q.type = c.free_of<int>({15, 1});
            static const std::vector<std::vector<int>> menu = {{7, 1}, {8, 1}, {7, 2}, {1}, {0, 1}, {}};
            q.tags = c.free_of(menu);
            for (size_t k = 0; k < type_info(q.type)->nodes; k++) q.nodes.push_back(tags[c.free_choose(3)]);
            f.elems.push_back(q);
        }
        grouping_check(c, f, n ? n % 2 : 0);
    }, 0});
    // tag lists of every length on shared entities, every grouping of the records
    e.add({"tag-lists", [](Ctx& c) {
        ref::File f = base(c);
        for (size_t i = 0; i < 4; i++) f.nodes.push_back(node(11 + i, i));
        const uint32_t n = c.free_choose(c.thorough ? 5 : 4) + 1;
        for (uint32_t i = 0; i < n; i++) {
            static const std::vector<std::vector<int>> menu = {{7, 1}, {8, 1}, {7, 2}, {7, 1, 1, 4}, {8, 1, 1, 5}, {9, 1, 1}, {8, 1, 2, 4, -5}, {1, 1, 1, 1}, {1}, {}, {2, 7, 8, 1, 7, 2, 9}};
            ref::Elem22 q; q.tag = 40 + i; q.type = 1; q.tags = c.free_of(menu);
            for (size_t k = 0; k < 2; k++) q.nodes.push_back(11 + (i + k) % 4);
            f.elems.push_back(q);
        }
        grouping_check(c, f, c.free_choose(f.format.file_type ? 2 : 1));
    }, 0});
    // longer sequences of elements, node sharing fixed, every grouping of the records
    e.add({"runs", [](Ctx& c) {
        ref::File f = base(c);
        for (size_t i = 0; i < 4; i++) f.nodes.push_back(node(11 + i, i));
        const uint32_t n = c.free_choose(c.thorough ? 8 : 7);
        for (uint32_t i = 0; i < n; i++) {
            static const std::vector<ref::Elem22> menu = {{0, 1, {7, 1}, {11, 12}}, {0, 1, {7, 2}, {12, 13}}, {0, 15, {7, 1}, {11}}, {0, 2, {7, 1}, {11, 12, 13}}, {0, 8, {9, 1}, {11, 12, 14}}};
            ref::Elem22 q = c.free_of(menu); q.tag = 1 + i;
            f.elems.push_back(q);
        }
        const size_t mode = c.free_choose(f.format.file_type ? 3 : 1);
        grouping_check(c, f, mode);
    }, 0});
    // nodes: every use pattern (unused, A, B, both) of four nodes x every order x tag sets, sparse ones too
    e.add({"nodes", [](Ctx& c) {
        ref::File f = base(c);
        static const std::vector<std::vector<size_t>> sets = {{1, 2, 3, 4}, {4, 3, 2, 1}, {0, 1, 2, 3}, {10, 20, 2000000000, 2147483647}, {1000000007, 3, 2147483646, 7}, {7, 4294967296ull, 1000000000000000000ull, 18446744073709551614ull}, {18446744073709551615ull, 0, 1, 9223372036854775808ull}};
        const std::vector<size_t> tags = c.free_of(sets);
        if (f.format.file_type && *std::max_element(tags.begin(), tags.end()) > 2147483647ull) throw Skip{};
        std::vector<size_t> left = {0, 1, 2, 3};
        while (!left.empty()) { const uint32_t k = c.free_choose(static_cast<uint32_t>(left.size())); f.nodes.push_back(node(tags[left[k]], left[k])); left.erase(left.begin() + k); }
        std::vector<ref::Elem22> a, b;
        for (size_t i = 0; i < 4; i++) {
            const uint32_t use = c.free_choose(4);
            if (use & 1) a.push_back({0, 15, {3, 4}, {tags[i]}});
            if (use & 2) b.push_back({0, 1, {6, 5}, {tags[i], tags[i]}});
        }
        if (c.free_flag()) a.swap(b);
        f.elems = a; f.elems.insert(f.elems.end(), b.begin(), b.end());
        size_t t = 50; for (auto& x : f.elems) x.tag = t++;
        const uint64_t cost = grouping_check(c, f);
        c.check(cost < 300000, "loading eight records allocates " + std::to_string(cost) + " bytes");
    }, 0});
    // sparse tags cost what dense tags cost
    e.add({"cost", [](Ctx& c) {
        ref::File f = base(c);
        const size_t n = c.free_of<size_t>({1, 10, 100, 1000});
        const size_t step = c.free_of<size_t>({2, 1000, 1000000, 2000000, 1ull << 40, 1ull << 53});
        if (f.format.file_type && n * step > 2147483647ull) throw Skip{};
        ref::File g = f;
        for (size_t i = 0; i < n; i++) {
            f.nodes.push_back(node((i + 1) * step, i)); g.nodes.push_back(node(i + 1, i));
            f.elems.push_back({(i + 1) * step, 15, {2, 3}, {(i + 1) * step}}); g.elems.push_back({i + 1, 15, {2, 3}, {i + 1}});
        }
        const uint64_t dense = grouping_check(c, g), sparse = grouping_check(c, f);
        c.check(sparse <= dense * 2 + 65536, "loading sparse tags allocates " + std::to_string(sparse) + " bytes, dense tags " + std::to_string(dense));
    }, 0});
    // every pair of element types, same and different entities
    e.add({"types", [](Ctx& c) {
        ref::File f = base(c);
        for (size_t i = 0; i < 60; i++) f.nodes.push_back(node(1 + i, i));
        for (size_t m = 0; m < 3; m++) {
            const Type& t = m == 2 ? *type_info(f.elems[0].type) : c.free_of(types());
            ref::Elem22 q{10 + m, t.type, {3, m == 1 ? c.free_of<int>({1, 2}) : 1}, {}};
            for (size_t k = 0; k < t.nodes; k++) q.nodes.push_back(1 + (k * 7 + m) % 60);
            f.elems.push_back(q);
        }
        grouping_check(c, f, f.format.file_type ? c.free_choose(2) : 0);
    }, 0});
    // entity and physical tags at the limits, equal tags in different dimensions
    e.add({"tags", [](Ctx& c) {
        ref::File f = base(c);
        for (size_t i = 0; i < 4; i++) f.nodes.push_back(node(11 + i, i));
        const uint32_t n = c.thorough ? 3 : 2;
        for (uint32_t i = 0; i < n; i++) {
            const Type& t = *type_info(c.free_of<int>({15, 1, 2, 4}));
            const std::vector<int> lim = {1, 0, -1, 2147483647, -2147483647 - 1};
            ref::Elem22 q{5 + i, t.type, {c.free_of(lim), c.free_of(lim)}, {}};
            for (size_t k = 0; k < t.nodes; k++) q.nodes.push_back(11 + k);
            f.elems.push_back(q);
        }
        grouping_check(c, f);
    }, 0});
    // run lengths: blocks of every length, alternating with period 1..4
    e.add({"lengths", [](Ctx& c) {
        ref::File f = base(c);
        const size_t n = c.free_of(sweep_lengths(c.thorough));
        if (n > (c.thorough ? 70000 : 4097)) throw Skip{};
        const size_t run = c.free_of<size_t>({1, 2, 3, 1000000, 64});
        const uint32_t order = c.free_choose(3);
        for (size_t i = 0; i < n; i++) f.nodes.push_back(node(1 + i, i));
        if (order == 1) std::reverse(f.nodes.begin(), f.nodes.end());
        for (size_t i = 0; i < n; i++) {
            const int ent = 1 + static_cast<int>((i / run) % 2);
            f.elems.push_back({1 + (order == 2 ? n - i : i), 1, {4, ent}, {1 + i, 1 + (i + 1) % n}});
        }
        grouping_check(c, f, f.format.file_type ? c.free_choose(2) : 0);
    }, 0, 60});
    // elements that use nodes the file does not define: grouped all the same (validation is not required)
    e.add({"undefined", [](Ctx& c) {
        ref::File f = base(c);
        const std::vector<size_t> tags = {5, 6, 9};
        for (size_t i = 0; i < 3; i++) if (c.free_flag()) f.nodes.push_back(node(tags[i], i));
        for (uint32_t i = 0; i < 2; i++) {
            const std::vector<size_t> refs = {5, 6, 9, 0, 7, 10, 2147483647};
            f.elems.push_back({1 + i, 1, {3, c.free_of<int>({1, 2})}, {c.free_of(refs), c.free_of(refs)}});
        }
        if (c.free_flag()) f.order = {"MeshFormat", "Elements", "Nodes"};
        grouping_check(c, f, 0, false);
    }, 0});
    (void)th;
    return run_main(e);
}
