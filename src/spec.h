// Canonical images, dumps and comparisons of mshio::MshSpec; a flat ("2.2") projection.
#pragma once
#include <cinttypes>
#include <cstring>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <mshio/exception.h>
#include <mshio/mshio.h>

namespace sp {
using namespace mshio;

inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline double from_bits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }

struct Bin {  // compact binary image
    std::string o;
    void raw(const void* p, size_t n) { o.append(static_cast<const char*>(p), n); }
    void z(const char*, uint64_t v) { raw(&v, 8); }
    void count(const char*, uint64_t v) { raw(&v, 8); }
    void i(const char*, int64_t v) { raw(&v, 8); }
    void d(const char*, double v) { raw(&v, 8); }
    void s(const char*, const std::string& v) { z("", v.size()); o += v; }
    void open(const char*, size_t k) { z("", k); }
    void close() {}
};
inline std::string show(const std::string& v) {
    std::string q = "\"";
    for (unsigned char c : v) {
        char b[8];
        if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); q += b; }
        else q += static_cast<char>(c);
    }
    return q + "\"";
}
struct Text {  // one line per field
    std::string o;
    std::vector<std::string> path;
    void line(const char* n, const std::string& v) { for (auto& p : path) { o += p; o += '.'; } o += n; o += " = "; o += v; o += '\n'; }
    void z(const char* n, uint64_t v) { line(n, std::to_string(v)); }
    void count(const char* n, uint64_t v) { line((std::string("#") + n).c_str(), std::to_string(v)); }
    void i(const char* n, int64_t v) { line(n, std::to_string(v)); }
    void d(const char* n, double v) { char b[80]; snprintf(b, sizeof b, "%.17g (bits %016" PRIx64 ")", v, bits(v)); line(n, b); }
    void s(const char* n, const std::string& v) { line(n, show(v)); }
    void open(const char* n, size_t k) { path.push_back(std::string(n) + "[" + std::to_string(k) + "]"); }
    void close() { path.pop_back(); }
};

template <class A, class T, class F> void list(A& a, const char* name, const std::vector<T>& v, F f) {
    a.count(name, v.size());
    for (size_t k = 0; k < v.size(); k++) { a.open(name, k); f(v[k]); a.close(); }
}
template <class A> void ints(A& a, const char* n, const std::vector<int>& v) { list(a, n, v, [&](int x) { a.i("", x); }); }
template <class A> void sizes(A& a, const char* n, const std::vector<size_t>& v) { list(a, n, v, [&](size_t x) { a.z("", x); }); }
template <class A> void doubles(A& a, const char* n, const std::vector<double>& v) { list(a, n, v, [&](double x) { a.d("", x); }); }
template <class A> void header(A& a, const DataHeader& h) {
    list(a, "string_tags", h.string_tags, [&](const std::string& x) { a.s("", x); });
    doubles(a, "real_tags", h.real_tags);
    ints(a, "int_tags", h.int_tags);
}
template <class A> void datas(A& a, const char* n, const std::vector<Data>& v) {
    list(a, n, v, [&](const Data& d) {
        header(a, d.header);
        list(a, "entries", d.entries, [&](const DataEntry& e) { a.z("tag", e.tag); a.i("num_nodes_per_element", e.num_nodes_per_element); doubles(a, "data", e.data); });
    });
}
template <class A, class E> void box(A& a, const E& e) {
    a.i("tag", e.tag);
    a.d("min_x", e.min_x); a.d("min_y", e.min_y); a.d("min_z", e.min_z);
    a.d("max_x", e.max_x); a.d("max_y", e.max_y); a.d("max_z", e.max_z);
    ints(a, "physical_group_tags", e.physical_group_tags);
}
template <class A> void walk_ext(A& a, const MshSpec& s) {
    a.s("nanospline_format.version", s.nanospline_format.version);
    list(a, "curves", s.curves, [&](const Curve& c) {
        a.z("curve_tag", c.curve_tag); a.z("curve_type", c.curve_type); a.z("curve_degree", c.curve_degree);
        a.z("num_control_points", c.num_control_points); a.z("num_knots", c.num_knots); a.z("with_weights", c.with_weights);
        doubles(a, "data", c.data);
    });
    list(a, "patches", s.patches, [&](const Patch& c) {
        a.z("patch_tag", c.patch_tag); a.z("patch_type", c.patch_type); a.z("degree_u", c.degree_u); a.z("degree_v", c.degree_v);
        a.z("num_control_points", c.num_control_points); a.z("num_u_knots", c.num_u_knots); a.z("num_v_knots", c.num_v_knots);
        a.z("with_weights", c.with_weights);
        doubles(a, "data", c.data);
    });
}
template <class A> void walk(A& a, const MshSpec& s, bool ext = true) {
    a.s("mesh_format.version", s.mesh_format.version);
    a.i("mesh_format.file_type", s.mesh_format.file_type);
    a.i("mesh_format.data_size", s.mesh_format.data_size);
    list(a, "physical_groups", s.physical_groups, [&](const PhysicalGroup& g) { a.i("dim", g.dim); a.i("tag", g.tag); a.s("name", g.name); });
    list(a, "points", s.entities.points, [&](const PointEntity& e) { a.i("tag", e.tag); a.d("x", e.x); a.d("y", e.y); a.d("z", e.z); ints(a, "physical_group_tags", e.physical_group_tags); });
    list(a, "curve_entities", s.entities.curves, [&](const CurveEntity& e) { box(a, e); ints(a, "boundary_point_tags", e.boundary_point_tags); });
    list(a, "surface_entities", s.entities.surfaces, [&](const SurfaceEntity& e) { box(a, e); ints(a, "boundary_curve_tags", e.boundary_curve_tags); });
    list(a, "volume_entities", s.entities.volumes, [&](const VolumeEntity& e) { box(a, e); ints(a, "boundary_surface_tags", e.boundary_surface_tags); });
    a.z("nodes.num_entity_blocks", s.nodes.num_entity_blocks); a.z("nodes.num_nodes", s.nodes.num_nodes);
    a.z("nodes.min_node_tag", s.nodes.min_node_tag); a.z("nodes.max_node_tag", s.nodes.max_node_tag);
    list(a, "node_blocks", s.nodes.entity_blocks, [&](const NodeBlock& b) {
        a.i("entity_dim", b.entity_dim); a.i("entity_tag", b.entity_tag); a.i("parametric", b.parametric); a.z("num_nodes_in_block", b.num_nodes_in_block);
        sizes(a, "tags", b.tags); doubles(a, "data", b.data);
    });
    a.z("elements.num_entity_blocks", s.elements.num_entity_blocks); a.z("elements.num_elements", s.elements.num_elements);
    a.z("elements.min_element_tag", s.elements.min_element_tag); a.z("elements.max_element_tag", s.elements.max_element_tag);
    list(a, "element_blocks", s.elements.entity_blocks, [&](const ElementBlock& b) {
        a.i("entity_dim", b.entity_dim); a.i("entity_tag", b.entity_tag); a.i("element_type", b.element_type); a.z("num_elements_in_block", b.num_elements_in_block);
        sizes(a, "data", b.data);
    });
    datas(a, "node_data", s.node_data);
    datas(a, "element_data", s.element_data);
    datas(a, "element_node_data", s.element_node_data);
    if (ext) walk_ext(a, s);
}
inline std::string image(const MshSpec& s, bool ext = true) { Bin b; b.o.reserve(4096); walk(b, s, ext); return std::move(b.o); }
inline std::string dump(const MshSpec& s, bool ext = true) { Text t; walk(t, s, ext); return std::move(t.o); }

// First differing line of two dumps.
inline std::string first_diff(const std::string& want, const std::string& got) {
    std::istringstream a(want), b(got);
    std::string x, y;
    for (;;) {
        const bool ga = static_cast<bool>(std::getline(a, x)), gb = static_cast<bool>(std::getline(b, y));
        if (!ga && !gb) return "(no textual difference)";
        if (!ga) x = "(nothing)";
        if (!gb) y = "(nothing)";
        if (x != y) return "expected {" + x.substr(0, 300) + "} got {" + y.substr(0, 300) + "}";
    }
}
// "" when equal
inline std::string diff(const MshSpec& want, const MshSpec& got, bool ext = true) {
    if (image(want, ext) == image(got, ext)) return "";
    return first_diff(dump(want, ext), dump(got, ext));
}

// What a file can hold: a Nodes / Elements section without nodes / elements is not written.
inline MshSpec stored(MshSpec s) {
    if (s.nodes.num_nodes == 0) s.nodes = Nodes();
    if (s.elements.num_elements == 0) s.elements = Elements();
    return s;
}
inline void strip_ext(MshSpec& s) { s.nanospline_format = NanoSplineFormat(); s.curves.clear(); s.patches.clear(); }

// ---- element table, written from the MSH documentation (types 1..31): dimension, nodes
struct Type { int type, dim; size_t nodes; };
inline const std::vector<Type>& types() {
    static const std::vector<Type> t = {
        {1, 1, 2}, {2, 2, 3}, {3, 2, 4}, {4, 3, 4}, {5, 3, 8}, {6, 3, 6}, {7, 3, 5}, {8, 1, 3}, {9, 2, 6}, {10, 2, 9},
        {11, 3, 10}, {12, 3, 27}, {13, 3, 18}, {14, 3, 14}, {15, 0, 1}, {16, 2, 8}, {17, 3, 20}, {18, 3, 15}, {19, 3, 13},
        {20, 2, 9}, {21, 2, 10}, {22, 2, 12}, {23, 2, 15}, {24, 2, 15}, {25, 2, 21}, {26, 1, 4}, {27, 1, 5}, {28, 1, 6},
        {29, 3, 20}, {30, 3, 35}, {31, 3, 56}};
    return t;
}
inline const Type* type_info(int t) {
    for (auto& x : types()) if (x.type == t) return &x;
    return nullptr;
}

// ---- flat content: what every format can represent
struct FlatNode { size_t tag; double x, y, z; };
struct FlatElem { size_t tag; int type, dim, entity; std::vector<size_t> nodes; };
struct Flat {
    std::vector<FlatNode> nodes;
    std::vector<FlatElem> elems;
};
inline Flat flatten(const MshSpec& s) {
    Flat f;
    for (auto& b : s.nodes.entity_blocks) {
        const size_t w = b.tags.empty() ? 3 : b.data.size() / b.tags.size();
        for (size_t i = 0; i < b.tags.size(); i++) f.nodes.push_back({b.tags[i], b.data[i * w], b.data[i * w + 1], b.data[i * w + 2]});
    }
    for (auto& b : s.elements.entity_blocks) {
        const Type* t = type_info(b.element_type);
        if (!t) continue;
        for (size_t i = 0; (i + 1) * (t->nodes + 1) <= b.data.size(); i++) {
            const auto* p = b.data.data() + i * (t->nodes + 1);
            f.elems.push_back({p[0], b.element_type, b.entity_dim, b.entity_tag, std::vector<size_t>(p + 1, p + 1 + t->nodes)});
        }
    }
    return f;
}
template <class A> void walk_flat(A& a, const MshSpec& s, bool with_format = true, bool ext = true) {
    const Flat f = flatten(s);
    if (with_format) {
        a.s("mesh_format.version", s.mesh_format.version);
        a.i("mesh_format.file_type", s.mesh_format.file_type);
        a.i("mesh_format.data_size", s.mesh_format.data_size);
    }
    list(a, "physical_groups", s.physical_groups, [&](const PhysicalGroup& g) { a.i("dim", g.dim); a.i("tag", g.tag); a.s("name", g.name); });
    a.z("num_nodes", s.nodes.num_nodes);
    list(a, "node", f.nodes, [&](const FlatNode& n) { a.z("tag", n.tag); a.d("x", n.x); a.d("y", n.y); a.d("z", n.z); });
    a.z("num_elements", s.elements.num_elements);
    list(a, "element", f.elems, [&](const FlatElem& e) { a.z("tag", e.tag); a.i("type", e.type); a.i("dim", e.dim); a.i("entity", e.entity); sizes(a, "nodes", e.nodes); });
    datas(a, "node_data", s.node_data);
    datas(a, "element_data", s.element_data);
    datas(a, "element_node_data", s.element_node_data);
    if (ext) walk_ext(a, s);
}
inline std::string flat_image(const MshSpec& s, bool with_format = true, bool ext = true) { Bin b; walk_flat(b, s, with_format, ext); return std::move(b.o); }
inline std::string flat_dump(const MshSpec& s, bool with_format = true, bool ext = true) { Text t; walk_flat(t, s, with_format, ext); return std::move(t.o); }
inline std::string flat_diff(const MshSpec& want, const MshSpec& got, bool with_format = true, bool ext = true) {
    if (flat_image(want, with_format, ext) == flat_image(got, with_format, ext)) return "";
    return first_diff(flat_dump(want, with_format, ext), flat_dump(got, with_format, ext));
}
inline void tag_range(const MshSpec& s, size_t& nmin, size_t& nmax, size_t& emin, size_t& emax) {
    nmin = emin = std::numeric_limits<size_t>::max(); nmax = emax = 0;
    const Flat f = flatten(s);
    for (auto& n : f.nodes) { nmin = std::min(nmin, n.tag); nmax = std::max(nmax, n.tag); }
    for (auto& e : f.elems) { emin = std::min(emin, e.tag); emax = std::max(emax, e.tag); }
    if (f.nodes.empty()) nmin = nmax = 0;
    if (f.elems.empty()) emin = emax = 0;
}
// (dim, entity) -> physical tags, for entities that carry elements
using PhysMap = std::map<std::pair<int, int>, std::set<int>>;
inline PhysMap physical_map(const MshSpec& s, bool only_single) {
    PhysMap m;
    std::set<std::pair<int, int>> used;
    for (auto& b : s.elements.entity_blocks) if (b.num_elements_in_block) used.insert({b.entity_dim, b.entity_tag});
    auto add = [&](int dim, int tag, const std::vector<int>& p) {
        if (!used.count({dim, tag}) || p.empty()) return;
        if (only_single && p.size() != 1) return;
        m[{dim, tag}].insert(p.begin(), p.end());
    };
    for (auto& e : s.entities.points) add(0, e.tag, e.physical_group_tags);
    for (auto& e : s.entities.curves) add(1, e.tag, e.physical_group_tags);
    for (auto& e : s.entities.surfaces) add(2, e.tag, e.physical_group_tags);
    for (auto& e : s.entities.volumes) add(3, e.tag, e.physical_group_tags);
    return m;
}

// Every array has exactly the size its counts announce.  "" or what is wrong.
inline std::string structure(const MshSpec& s) {
    auto w = [](const std::string& m) { return "returned specification is inconsistent: " + m; };
    if (s.nodes.num_entity_blocks != s.nodes.entity_blocks.size()) return w("nodes.num_entity_blocks");
    for (auto& b : s.nodes.entity_blocks) {
        if (b.num_nodes_in_block != b.tags.size()) return w("node block tags");
        const size_t e = 3 + (b.parametric == 1 ? static_cast<size_t>(b.entity_dim) : 0);
        if (e > 6 || b.data.size() != e * b.tags.size()) return w("node block data");
    }
    if (s.elements.num_entity_blocks != s.elements.entity_blocks.size()) return w("elements.num_entity_blocks");
    for (auto& b : s.elements.entity_blocks) {
        const Type* t = type_info(b.element_type);
        if (!t) return w("element type " + std::to_string(b.element_type));
        if (b.data.size() % (t->nodes + 1) || b.data.size() / (t->nodes + 1) != b.num_elements_in_block) return w("element block data");
    }
    auto dat = [&](const std::vector<Data>& v, bool en) {
        for (auto& d : v) {
            if (d.header.int_tags.size() < 3) return false;
            if (d.header.int_tags[1] < 0 || d.header.int_tags[2] < 0) return false;
            if (d.entries.size() != static_cast<size_t>(d.header.int_tags[2])) return false;
            for (auto& e : d.entries)
                if (e.num_nodes_per_element < 0 || e.data.size() != static_cast<size_t>(d.header.int_tags[1]) * (en ? static_cast<size_t>(e.num_nodes_per_element) : 1)) return false;
        }
        return true;
    };
    if (!dat(s.node_data, false)) return w("node_data");
    if (!dat(s.element_data, false)) return w("element_data");
    if (!dat(s.element_node_data, true)) return w("element_node_data");
    using wide = unsigned __int128;  // counts in a damaged file may wrap
    for (auto& c : s.curves) if (wide(c.data.size()) != wide(c.num_control_points) * (c.with_weights ? 4 : 3) + c.num_knots) return w("curve data");
    for (auto& c : s.patches) if (wide(c.data.size()) != wide(c.num_control_points) * (c.with_weights ? 4 : 3) + c.num_u_knots + c.num_v_knots) return w("patch data");
    return "";
}

// ---- library calls
struct Loaded { bool ok = false; MshSpec spec; std::string error, kind; };
inline Loaded load(std::istream& in) {
    Loaded r;
    try { r.spec = load_msh(in); r.ok = true; r.kind = "ok"; }
    catch (const InvalidFormat& e) { r.error = e.what(); r.kind = "InvalidFormat"; }
    catch (const UnsupportedFeature& e) { r.error = e.what(); r.kind = "UnsupportedFeature"; }
    catch (const CorruptData& e) { r.error = e.what(); r.kind = "CorruptData"; }
    catch (const std::exception& e) { r.error = e.what(); r.kind = "std::exception"; }
    return r;
}
inline Loaded load_bytes(const std::string& b) { std::istringstream in(b, std::ios::binary | std::ios::in); return load(in); }
// The entity of a 2.2 element without tags is the library's choice, but one that depends on nothing but the type.
inline int untagged_entity(int type) {
    static std::map<int, int> known;
    auto it = known.find(type);
    if (it != known.end()) return it->second;
    std::string b = "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Elements\n1\n1 " + std::to_string(type) + " 0";
    for (size_t i = 1; i <= type_info(type)->nodes; i++) b += " " + std::to_string(i);
    const Loaded l = load_bytes(b + "\n$EndElements\n");
    const int e = l.ok && l.spec.elements.entity_blocks.size() == 1 ? l.spec.elements.entity_blocks[0].entity_tag : 0;
    return known[type] = e;
}
struct Saved { bool ok = false; std::string bytes, error, kind; };
inline Saved save_bytes(const MshSpec& s) {
    Saved r;
    std::ostringstream out(std::ios::binary | std::ios::out);
    try { save_msh(out, s); r.ok = out.good(); if (!r.ok) r.error = "stream failed"; r.kind = "ok"; }
    catch (const InvalidFormat& e) { r.error = e.what(); r.kind = "InvalidFormat"; }
    catch (const UnsupportedFeature& e) { r.error = e.what(); r.kind = "UnsupportedFeature"; }
    catch (const CorruptData& e) { r.error = e.what(); r.kind = "CorruptData"; }
    catch (const std::exception& e) { r.error = e.what(); r.kind = "std::exception"; }
    r.bytes = out.str();
    return r;
}
inline std::string hexdump(const std::string& b, size_t limit = 3000) {
    std::string o;
    for (size_t i = 0; i < b.size() && i < limit; i++) {
        const unsigned char c = static_cast<unsigned char>(b[i]);
        char t[8];
        if (c == '\n') o += "\\n\n";
        else if (c < 0x20 || c >= 0x7f) { snprintf(t, sizeof t, "\\x%02x", c); o += t; }
        else o += static_cast<char>(c);
    }
    if (b.size() > limit) o += "... (" + std::to_string(b.size()) + " bytes)";
    return o;
}
// Keeps the "skipping section" warnings of the library out of the output.
struct NullBuf : std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
struct Quiet {
    NullBuf sink;
    std::streambuf* old;
    Quiet() : old(std::cerr.rdbuf(&sink)) {}
    ~Quiet() { std::cerr.rdbuf(old); }
};
}  // namespace sp
