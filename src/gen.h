// Choice-driven generator of valid specifications.
//
// Every field asks the chooser; option 0 is a distinct default value, so that a specification
// with few deviations is still one in which swapped, dropped or shifted fields are visible.
#pragma once
#include "explore.h"
#include "spec.h"

namespace gen {
using namespace mshio;
using sp::from_bits;

enum Field { F_INT, F_SIZE, F_DOUBLE, F_STRING, F_COUNT };

// ---- alphabets, simplest first
inline const std::vector<int64_t>& small_ints() {
    static const std::vector<int64_t> v = {0, 1, -1, 10, 13, 32, 36, 256, 0x0a0a0a0a, 2147483647, -2147483647 - 1};
    return v;
}
inline std::vector<int64_t> make_large_ints() {
    std::vector<int64_t> v = {0, 1, -1, 9, 10, 11, 12, 13, 32, 34, 36, 92, 0x0a0a0a0a, 0x20202020, 0x24242424, 0x0d0a0d0a, 0x000a0000, 0x0a000000};
    for (int k = 1; k < 31; k++) for (int e = -1; e <= 1; e++) { v.push_back((1ll << k) + e); v.push_back(-(1ll << k) + e); }
    v.push_back(2147483647); v.push_back(2147483646); v.push_back(-2147483648ll); v.push_back(-2147483647);
    for (int64_t p = 10; p < 2147483647; p *= 10) { v.push_back(p); v.push_back(p - 1); v.push_back(-p); }
    return v;
}
inline const std::vector<int64_t>& large_ints() { static const std::vector<int64_t> v = make_large_ints(); return v; }
inline const std::vector<uint64_t>& small_sizes() {
    static const std::vector<uint64_t> v = {1, 2, 10, 32, 36, 256, 65536, 0x0a0a0a0a, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 9007199254740993ull, 9223372036854775808ull, 18446744073709551615ull, 0};
    return v;
}
inline std::vector<uint64_t> make_large_sizes() {
    std::vector<uint64_t> v = {1, 2, 9, 10, 11, 12, 13, 32, 34, 36, 0x0a0a0a0a, 0x0a0a0a0a0a0a0a0aull, 0x2020202020202020ull, 0x0000000a00000000ull};
    for (int k = 2; k < 64; k++) for (int e = -1; e <= 1; e++) v.push_back((1ull << k) + static_cast<uint64_t>(e));
    uint64_t p = 10;
    for (int k = 1; k < 20; k++, p *= 10) { v.push_back(p); v.push_back(p - 1); v.push_back(p + 1); }
    v.push_back(18446744073709551615ull); v.push_back(18446744073709551614ull); v.push_back(0);
    return v;
}
inline const std::vector<uint64_t>& large_sizes() { static const std::vector<uint64_t> v = make_large_sizes(); return v; }
inline const std::vector<uint64_t>& small_doubles() {  // bit patterns
    static const std::vector<uint64_t> v = {
        0, 0x8000000000000000ull /* -0 */, 0x3ff0000000000000ull /* 1 */, 0x3fd5555555555555ull /* 1/3 */, 0x3ff0000000000001ull /* 1+ulp */,
        0x0000000000000001ull /* min subnormal */, 0x7fefffffffffffffull /* max */, 0xc08f400a0a0a0a0aull, 0x0a0a0a0a0a0a0a0aull, 0x4415af1d78b58c40ull /* 1e20 */,
        0x7ff0000000000000ull /* inf */, 0x7ff8000000000001ull /* nan */, 0xfff0000000000000ull};
    return v;
}
inline std::vector<uint64_t> make_large_doubles(int stride) {
    std::vector<uint64_t> v = small_doubles();
    for (int e = 0; e <= 2046; e += stride) { v.push_back(static_cast<uint64_t>(e) << 52); v.push_back((static_cast<uint64_t>(e) << 52) | 0x8000000000000001ull); v.push_back((static_cast<uint64_t>(e) << 52) | 0x000fffffffffffffull); v.push_back((static_cast<uint64_t>(e) << 52) | 0x0005555555555555ull); }
    for (int k = 0; k < 52; k++) { v.push_back((0x3ffull << 52) | (1ull << k)); v.push_back((0xc09ull << 52) | ((1ull << k) - 1)); v.push_back(1ull << k); }
    for (double x : {0.1, 0.2, 0.3, 1e-5, 1e5, 123456.789, 1234567.0, 12345678.9, 1e15, 1e16, 1e17, 9007199254740993.0, 1e22, 1e23, 5e-324, 2.2250738585072011e-308, 2.2250738585072014e-308, 1e-310, 1.7976931348623157e308, 3.141592653589793, 100000.0, 999999.5, 1000000.0, 0.0001, 0.00001})
        v.push_back(sp::bits(x)), v.push_back(sp::bits(-x));
    v.push_back(0x7ff0000000000001ull); v.push_back(0xffffffffffffffffull); v.push_back(0x7ff4000000000000ull);
    return v;
}
inline const std::vector<uint64_t>& large_doubles(bool all) {
    static const std::vector<uint64_t> a = make_large_doubles(97), b = make_large_doubles(1);
    return all ? b : a;
}
inline const std::vector<std::string>& small_strings() {
    static const std::vector<std::string> v = {"", " ", "a b", "\"", "\\", "a\nb", "\t", "$EndPhysicalNames", std::string(1, '\0'), "\xff\xc3", "\"\"", "\\\"", "x\\", "0", " lead", "trail ", "\r\n", "$EndNodeData\n$Nodes", "'", "#", std::string(300, 'n')};
    return v;
}
// every string up to a length over the characters the encodings treat specially
inline std::vector<std::string> all_strings(size_t max_len) {
    const std::string alpha = std::string("a \"\\\n$\t") + '\0' + '\xff' + "\r";
    std::vector<std::string> v{""}, last{""};
    for (size_t l = 1; l <= max_len; l++) {
        std::vector<std::string> next;
        for (auto& s : last) for (char c : alpha) next.push_back(s + c);
        v.insert(v.end(), next.begin(), next.end());
        last.swap(next);
    }
    for (const char* w : {"$End", "$EndPhysicalNames", "$EndNodeData", "$EndElementData", "$EndElementNodeData", "$Nodes", "$MeshFormat", "\"$EndNodeData\"", "a$EndNodeData", "$EndNodeData ", "-1", "1e5", "nan", "//", "/*", "%", "\xef\xbb\xbf"}) v.push_back(w);
    return v;
}
inline const std::vector<size_t>& sweep_lengths(bool thorough) {
    auto make = [](size_t dense, size_t max) {
        std::vector<size_t> v;
        for (size_t i = 0; i <= dense; i++) v.push_back(i);
        for (size_t p = 16; p <= max; p *= 2) for (int e = -1; e <= 1; e++) if (p + static_cast<size_t>(e) > dense) v.push_back(p + static_cast<size_t>(e));
        for (size_t p = 10; p <= max; p *= 10) for (int e = -1; e <= 1; e++) if (p + static_cast<size_t>(e) > dense) v.push_back(p + static_cast<size_t>(e));
        for (size_t p = 10; p <= max; p *= 10) for (size_t k : {2, 5}) if (p * k > dense && p * k <= max) v.push_back(p * k);
        for (size_t p = 3; p <= max; p *= 2) if (p > dense) v.push_back(p);
        return v;
    };
    static const std::vector<size_t> q = make(48, 65536), t = make(600, 262144);
    return thorough ? t : q;
}

struct Opt {
    std::string version = "4.1";
    int file_type = 0;
    int rich = 0;             // 0: small base, 1: rich base
    bool ext = false;         // curves and patches too
    bool vary_values = true;  // each value asks the chooser
    bool vary_counts = true;
    int values = 0;           // 0 small alphabets, 1 large, 2 large with all exponents
    std::string target;       // list whose length is forced (size sweep)
    size_t length = 0;
    std::string target2;      // a second one
    size_t length2 = 0;
    int type_dev = 1;         // element types ask the chooser
    bool tight = false;       // tag ranges exact
    bool data_size_free = false;
    uint64_t max_tag = 0;     // 0: no limit beyond the format's
    bool single_phys = false; // at most one physical group per entity
    bool unique_entities = true;
    bool finite = false;      // only finite doubles, even in binary
    bool only_ext = false;    // only curves and patches vary
};

class Gen {
public:
    Gen(mc::Ctx& ctx, const Opt& opt) : c(ctx), o(opt), bin(opt.file_type != 0), v22(opt.version == "2.2") {}
    MshSpec spec();

private:
    mc::Ctx& c;
    Opt o;
    bool bin, v22;
    int ki = 0;
    uint64_t kz = 0, kd = 0, ks = 0;

    static bool finite_bits(uint64_t b) { return ((b >> 52) & 0x7ff) != 0x7ff; }
    int I() { return I(100 + 7 * ++ki); }
    int I(int dflt) {
        if (!o.vary_values) return dflt;
        auto& a = o.values ? large_ints() : small_ints();
        const uint32_t k = c.choose(static_cast<uint32_t>(a.size()) + 1);
        return k ? static_cast<int>(a[k - 1]) : dflt;
    }
    uint64_t limit(bool tag32) const { uint64_t m = std::numeric_limits<uint64_t>::max(); if (tag32) m = 2147483647ull; if (o.max_tag) m = std::min(m, o.max_tag); return m; }
    size_t Z(size_t dflt, bool tag32 = false) {
        if (!o.vary_values) return dflt;
        auto& a = o.values ? large_sizes() : small_sizes();
        const uint32_t k = c.choose(static_cast<uint32_t>(a.size()) + 1);
        if (!k) return dflt;
        if (a[k - 1] > limit(tag32)) throw mc::Skip{};
        return a[k - 1];
    }
    double D() {
        const double dflt = static_cast<double>(++kd) + 1.0 / 3.0;
        if (!o.vary_values) return dflt;
        auto& a = o.values ? large_doubles(o.values > 1) : small_doubles();
        const uint32_t k = c.choose(static_cast<uint32_t>(a.size()) + 1);
        if (!k) return dflt;
        if (!finite_bits(a[k - 1]) && (!bin || o.finite)) throw mc::Skip{};
        return from_bits(a[k - 1]);
    }
    // textual in both encodings
    double DT() { const bool b = bin; bin = false; struct R { bool& r; bool v; ~R() { r = v; } } r{bin, b}; return D(); }
    std::string S(const char* target) {
        const std::string dflt = "name" + std::to_string(++ks);
        if (o.target == target || o.target2 == target) { std::string s; const size_t l = o.target == target ? o.length : o.length2; for (size_t i = 0; i < l; i++) s += static_cast<char>('a' + (i * 7 + i / 26) % 26); return s; }
        if (!o.vary_values) return dflt;
        auto& a = small_strings();
        const uint32_t k = c.choose(static_cast<uint32_t>(a.size()) + 1);
        return k ? a[k - 1] : dflt;
    }
    // number of items in a list
    size_t N(const char* target, size_t dflt, size_t rich_dflt, std::initializer_list<size_t> alt = {0, 1, 2, 3, 4, 10, 13, 32}) {
        if (o.target == target) return o.length;
        if (o.target2 == target) return o.length2;
        const size_t d = o.rich ? rich_dflt : dflt;
        if (!o.vary_counts) return d;
        const uint32_t k = c.choose(static_cast<uint32_t>(alt.size()) + 1);
        return k ? *(alt.begin() + (k - 1)) : d;
    }
    bool big() const { return (!o.target.empty() && o.length > 64) || (!o.target2.empty() && o.length2 > 64); }
    // items after the first few of a long list take default values without asking
    template <class F> void item(size_t index, F f) {
        const bool v = o.vary_values, n = o.vary_counts; const int r = o.rich;
        if (index >= 3) { o.vary_values = false; o.vary_counts = false; if (big()) o.rich = 0; }
        f();
        o.vary_values = v; o.vary_counts = n; o.rich = r;
    }
    void phys(std::vector<int>& v, const char* target) {
        size_t n = N(target, 1, o.single_phys ? 1 : 2);
        if (o.single_phys && n > 1 && o.target != target && o.target2 != target) throw mc::Skip{};
        for (size_t i = 0; i < n; i++) item(i, [&] { v.push_back(I()); });
    }
    void ints(std::vector<int>& v, const char* target, size_t d, size_t rd) { const size_t n = N(target, d, rd); for (size_t i = 0; i < n; i++) item(i, [&] { v.push_back(I()); }); }
    template <class E> void box(E& e) { e.tag = I(); e.min_x = D(); e.min_y = D(); e.min_z = D(); e.max_x = D(); e.max_y = D(); e.max_z = D(); }
    void entities(MshSpec& s);
    void nodes(MshSpec& s);
    void elements(MshSpec& s);
    void data(std::vector<Data>& v, const std::string& kind, bool element_nodes);
    void splines(MshSpec& s);
};

inline void Gen::entities(MshSpec& s) {
    auto& e = s.entities;
    size_t n = N("points", 1, 2);
    for (size_t i = 0; i < n; i++) item(i, [&] { PointEntity p; p.tag = I(); p.x = D(); p.y = D(); p.z = D(); phys(p.physical_group_tags, "points.phys"); e.points.push_back(p); });
    n = N("curves", 1, 2);
    for (size_t i = 0; i < n; i++) item(i, [&] { CurveEntity p; box(p); phys(p.physical_group_tags, "curves.phys"); ints(p.boundary_point_tags, "curves.boundary", 1, 2); e.curves.push_back(p); });
    n = N("surfaces", 1, 2);
    for (size_t i = 0; i < n; i++) item(i, [&] { SurfaceEntity p; box(p); phys(p.physical_group_tags, "surfaces.phys"); ints(p.boundary_curve_tags, "surfaces.boundary", 1, 3); e.surfaces.push_back(p); });
    n = N("volumes", 1, 2);
    for (size_t i = 0; i < n; i++) item(i, [&] { VolumeEntity p; box(p); phys(p.physical_group_tags, "volumes.phys"); ints(p.boundary_surface_tags, "volumes.boundary", 1, 4); e.volumes.push_back(p); });
    if (o.unique_entities) {
        auto uniq = [&](auto& v) { std::set<int> t; for (auto& x : v) if (!t.insert(x.tag).second) throw mc::Skip{}; };
        uniq(e.points); uniq(e.curves); uniq(e.surfaces); uniq(e.volumes);
    }
}

inline void Gen::nodes(MshSpec& s) {
    auto& n = s.nodes;
    const size_t nb = N("node_blocks", 1, 5, {0, 1, 2, 3, 10, 32});
    size_t next = 17;
    for (size_t i = 0; i < nb; i++) item(i >= 5 ? i : 0, [&] {
        NodeBlock b;
        b.entity_dim = o.rich ? static_cast<int>((i + 1) % 4) : 2;
        b.parametric = (i % 4 != 3);
        if (o.vary_counts) { b.entity_dim = (b.entity_dim + static_cast<int>(c.choose(4))) % 4; b.parametric ^= static_cast<int>(c.choose(2)); }
        b.entity_tag = I(1 + static_cast<int>(i));
        const size_t m = N("nodes_in_block", 1, 2);
        for (size_t j = 0; j < m; j++) item(j, [&] { b.tags.push_back(Z(next, v22 && bin)); next += 3; });
        const size_t w = 3 + (b.parametric ? static_cast<size_t>(b.entity_dim) : 0);
        for (size_t j = 0; j < m; j++) item(j, [&] { for (size_t k = 0; k < w; k++) b.data.push_back(D()); });
        b.num_nodes_in_block = m;
        n.entity_blocks.push_back(std::move(b));
    });
    n.num_entity_blocks = n.entity_blocks.size();
    for (auto& b : n.entity_blocks) n.num_nodes += b.num_nodes_in_block;
}

inline void Gen::elements(MshSpec& s) {
    auto& e = s.elements;
    const size_t nb = N("element_blocks", 1, 4, {0, 1, 2, 3, 10, 32});
    std::vector<size_t> pool;
    for (auto& b : s.nodes.entity_blocks) pool.insert(pool.end(), b.tags.begin(), b.tags.end());
    if (pool.empty()) { if (nb == 0) return; if (s.nodes.num_nodes == 0 && nb && o.target.empty()) throw mc::Skip{}; pool.push_back(0); }
    size_t next = 1001, kn = 0;
    static const int rich_types[4] = {4, 2, 1, 15};
    for (size_t i = 0; i < nb; i++) item(i >= 4 ? i : 0, [&] {
        ElementBlock b;
        b.element_type = o.rich ? rich_types[i % 4] : 2;
        if (o.type_dev && o.vary_counts) { const uint32_t k = c.choose(32); if (k) b.element_type = static_cast<int>(k); }
        const sp::Type* t = sp::type_info(b.element_type);
        b.entity_dim = t->dim;
        int own = 1 + static_cast<int>(i);  // default: an existing entity of that dimension
        auto pick = [&](auto& v) { if (!v.empty()) own = v[i % v.size()].tag; };
        if (t->dim == 0) pick(s.entities.points); else if (t->dim == 1) pick(s.entities.curves); else if (t->dim == 2) pick(s.entities.surfaces); else pick(s.entities.volumes);
        b.entity_tag = I(own);
        const size_t m = N("elements_in_block", 1, 2);
        for (size_t j = 0; j < m; j++) item(j, [&] {
            b.data.push_back(Z(next, v22 && bin)); next += 3;
            for (size_t k = 0; k < t->nodes; k++) {
                size_t ref = kn++ % pool.size();
                if (o.vary_values && pool.size() > 1 && k < 2) ref = (ref + c.choose(std::min<uint32_t>(3, static_cast<uint32_t>(pool.size())))) % pool.size();
                b.data.push_back(pool[ref]);
            }
        });
        b.num_elements_in_block = m;
        e.entity_blocks.push_back(std::move(b));
    });
    e.num_entity_blocks = e.entity_blocks.size();
    for (auto& b : e.entity_blocks) e.num_elements += b.num_elements_in_block;
}

inline void Gen::data(std::vector<Data>& v, const std::string& kind, bool element_nodes) {
    const size_t n = N(kind.c_str(), 1, 2, {0, 1, 2, 3});
    for (size_t i = 0; i < n; i++) item(i, [&] {
        Data d;
        size_t k = N((kind + ".string_tags").c_str(), 1, 2);
        for (size_t j = 0; j < k; j++) item(j, [&] { d.header.string_tags.push_back(S((kind + ".string").c_str())); });
        k = N((kind + ".real_tags").c_str(), 1, 2);
        for (size_t j = 0; j < k; j++) item(j, [&] { d.header.real_tags.push_back(DT()); });
        const size_t fields = N((kind + ".fields").c_str(), 1, 3, {0, 1, 2, 3, 9, 10, 13, 32});
        const size_t entries = N((kind + ".entries").c_str(), 1, 2);
        d.header.int_tags = {I(), static_cast<int>(fields), static_cast<int>(entries)};
        k = N((kind + ".int_tags").c_str(), 0, 1);
        for (size_t j = 0; j < k; j++) item(j, [&] { d.header.int_tags.push_back(I()); });
        for (size_t j = 0; j < entries; j++) item(j, [&] {
            DataEntry e;
            e.tag = Z(17 + 3 * j, bin);
            size_t m = 1;
            if (element_nodes) { m = N((kind + ".nodes").c_str(), 1, 2); e.num_nodes_per_element = static_cast<int>(m); }
            for (size_t q = 0; q < m * fields; q++) item(q, [&] { e.data.push_back(D()); });
            d.entries.push_back(std::move(e));
        });
        v.push_back(std::move(d));
    });
}

inline void Gen::splines(MshSpec& s) {
    size_t n = N("curves_ext", 1, 3);
    if (o.vary_values) s.nanospline_format.version = c.of<std::string>({"1.0", "2.0", "x"});
    for (size_t i = 0; i < n; i++) item(i, [&] {
        Curve q;
        q.curve_tag = Z(501 + i); q.curve_type = Z(2 + i); q.curve_degree = Z(3 + i);
        q.num_control_points = N("curve.cps", 1, 2);
        q.num_knots = N("curve.knots", 1, 2);
        q.with_weights = (i % 2 == 0);
        if (o.vary_counts) q.with_weights ^= c.choose(2);
        const size_t m = q.num_control_points * (q.with_weights ? 4 : 3) + q.num_knots;
        for (size_t k = 0; k < m; k++) item(o.rich ? k / 4 : k, [&] { q.data.push_back(D()); });
        s.curves.push_back(std::move(q));
    });
    n = N("patches_ext", 1, 3);
    for (size_t i = 0; i < n; i++) item(i, [&] {
        Patch q;
        q.patch_tag = Z(601 + i); q.patch_type = Z(2 + i); q.degree_u = Z(3 + i); q.degree_v = Z(7 + i);
        q.num_control_points = N("patch.cps", 1, 2);
        q.num_u_knots = N("patch.u", 1, 2);
        q.num_v_knots = N("patch.v", 1, 3);
        q.with_weights = (i % 2 == 1);
        if (o.vary_counts) q.with_weights ^= c.choose(2);
        const size_t m = q.num_control_points * (q.with_weights ? 4 : 3) + q.num_u_knots + q.num_v_knots;
        for (size_t k = 0; k < m; k++) item(o.rich ? k / 4 : k, [&] { q.data.push_back(D()); });
        s.patches.push_back(std::move(q));
    });
}

inline MshSpec Gen::spec() {
    MshSpec s;
    s.mesh_format.version = o.version;
    s.mesh_format.file_type = o.file_type;
    s.mesh_format.data_size = 8;
    const bool vv = o.vary_values, vc = o.vary_counts;
    if (o.only_ext) o.vary_values = o.vary_counts = false;
    if (o.data_size_free) s.mesh_format.data_size = c.of<int>({8, 4, 0, -1, 2147483647});
    const size_t n = N("physical_groups", 1, 2);
    for (size_t i = 0; i < n; i++) item(i, [&] { PhysicalGroup g; g.dim = I(2 + static_cast<int>(i)); g.tag = I(); g.name = S("physical_groups.name"); s.physical_groups.push_back(g); });
    entities(s);
    nodes(s);
    elements(s);
    size_t a, b, x, y;
    sp::tag_range(s, a, b, x, y);
    s.nodes.min_node_tag = a; s.nodes.max_node_tag = b; s.elements.min_element_tag = x; s.elements.max_element_tag = y;
    if (!o.tight && o.vary_values) {
        auto widen = [&](size_t& lo, size_t& hi) {
            switch (c.choose(4)) { case 1: lo = 0; break; case 2: lo = lo ? lo - 1 : 0; break; case 3: lo /= 2; break; }
            switch (c.choose(4)) { case 1: hi = std::numeric_limits<size_t>::max(); break; case 2: if (hi + 1) hi++; break; case 3: if (hi < 4294967296ull) hi = 4294967296ull; break; }
        };
        widen(s.nodes.min_node_tag, s.nodes.max_node_tag);
        widen(s.elements.min_element_tag, s.elements.max_element_tag);
    }
    data(s.node_data, "node_data", false);
    data(s.element_data, "element_data", false);
    data(s.element_node_data, "element_node_data", true);
    o.vary_values = vv; o.vary_counts = vc;
    if (o.ext) splines(s);
    return s;
}

inline const std::vector<std::string>& sweep_targets(bool ext) {
    static const std::vector<std::string> base = {
        "physical_groups", "physical_groups.name", "points", "points.phys", "curves", "curves.phys", "curves.boundary", "surfaces", "surfaces.phys", "surfaces.boundary",
        "volumes", "volumes.phys", "volumes.boundary", "node_blocks", "nodes_in_block", "element_blocks", "elements_in_block",
        "node_data", "node_data.string_tags", "node_data.string", "node_data.real_tags", "node_data.fields", "node_data.entries", "node_data.int_tags",
        "element_data", "element_data.string_tags", "element_data.string", "element_data.real_tags", "element_data.fields", "element_data.entries", "element_data.int_tags",
        "element_node_data", "element_node_data.string_tags", "element_node_data.string", "element_node_data.real_tags", "element_node_data.fields", "element_node_data.entries", "element_node_data.int_tags", "element_node_data.nodes"};
    static const std::vector<std::string> e = {"curves_ext", "curve.cps", "curve.knots", "patches_ext", "patch.cps", "patch.u", "patch.v"};
    static std::vector<std::string> all;
    if (all.empty()) { all = base; all.insert(all.end(), e.begin(), e.end()); }
    return ext ? all : base;
}
// Size sweep: one list of every length, everything else at its default.
inline Opt sweep_opt(mc::Ctx& c, Opt o, bool ext) {
    o.ext = ext;
    o.vary_values = o.vary_counts = false;
    o.rich = static_cast<int>(c.free_choose(2));
    o.target = c.free_of(sweep_targets(ext));
    o.length = c.free_of(sweep_lengths(c.thorough));
    if (o.rich && o.length > 4097) throw mc::Skip{};
    return o;
}
// Two lists of unusual lengths at once, nested ones (entries of entries) among them.
inline Opt sweep_pair(mc::Ctx& c, Opt o, bool ext) {
    static const std::vector<size_t> q = {0, 2, 6, 11, 33, 150, 300}, t = {0, 1, 2, 3, 4, 6, 8, 11, 17, 33, 65, 129, 150, 300, 1025};
    o.ext = ext;
    o.vary_values = o.vary_counts = false;
    const auto& a = sweep_targets(ext);
    const uint32_t i = c.free_choose(static_cast<uint32_t>(a.size())), j = c.free_choose(static_cast<uint32_t>(a.size()));
    if (j <= i) throw mc::Skip{};
    o.target = a[i]; o.length = c.free_of(c.thorough ? t : q);
    o.target2 = a[j]; o.length2 = c.free_of(c.thorough ? t : q);
    return o;
}
}  // namespace gen
