// Small specifications that hold one section, and files of them in the four formats.
#pragma once
#include "gen.h"
#include "ref_codec.h"
namespace mini {
using namespace mshio;
struct Fmt { const char* version; int type; };
inline const std::vector<Fmt>& formats() { static const std::vector<Fmt> f = {{"4.1", 0}, {"4.1", 1}, {"2.2", 0}, {"2.2", 1}}; return f; }
inline std::string name(const Fmt& f) { return std::string(f.version) + (f.type ? " binary" : " ascii"); }

// A specification without choices; `rich` 0 small, 1 rich.
inline MshSpec fixed(const Fmt& f, int rich, bool ext) {
    mc::Ctx c;
    gen::Opt o; o.version = f.version; o.file_type = f.type; o.rich = rich; o.ext = ext; o.vary_values = o.vary_counts = false;
    return gen::Gen(c, o).spec();
}
inline const std::vector<std::string>& sections(bool ext) {
    static const std::vector<std::string> b = {"MeshFormat", "PhysicalNames", "Entities", "Nodes", "Elements", "NodeData", "ElementData", "ElementNodeData", "Both"};
    static const std::vector<std::string> x = {"MeshFormat", "PhysicalNames", "Entities", "Nodes", "Elements", "NodeData", "ElementData", "ElementNodeData", "Both", "Curves", "Patches"};
    return ext ? x : b;
}
// Keeps the header and one section ("Both": nodes and elements, with physical groups of entities).
inline MshSpec only(MshSpec s, const std::string& n) {
    MshSpec r;
    r.mesh_format = s.mesh_format;
    if (n == "PhysicalNames") r.physical_groups = s.physical_groups;
    if (n == "Entities" || n == "Both") r.entities = s.entities;
    if (n == "Nodes" || n == "Both") r.nodes = s.nodes;
    if (n == "Elements" || n == "Both") r.elements = s.elements;
    if (n == "NodeData") r.node_data = s.node_data;
    if (n == "ElementData") r.element_data = s.element_data;
    if (n == "ElementNodeData") r.element_node_data = s.element_node_data;
    if (n == "Curves") r.curves = s.curves;
    if (n == "Patches") r.patches = s.patches;
    r.nanospline_format = s.nanospline_format;
    return r;
}
// Three element blocks over every pair of types: A and B on the same or neighbouring entities, then A again.
inline MshSpec type_pair(mc::Ctx& c, MshSpec s) {
    size_t first = 1;
    s.nodes = Nodes(); s.elements = Elements();
    NodeBlock nb; nb.entity_dim = 2; nb.entity_tag = 1; nb.parametric = 0;
    for (size_t i = 0; i < 60; i++) { nb.tags.push_back(first + i); for (int k = 0; k < 3; k++) nb.data.push_back(static_cast<double>(i) / 3.0 + k); }
    nb.num_nodes_in_block = 60;
    s.nodes.entity_blocks.push_back(nb); s.nodes.num_entity_blocks = 1; s.nodes.num_nodes = 60; s.nodes.min_node_tag = 1; s.nodes.max_node_tag = 60;
    const sp::Type& a = c.free_of(sp::types());
    const sp::Type& b = c.free_of(sp::types());
    const int other = c.free_of<int>({1, 2});
    size_t tag = 10;
    for (size_t m = 0; m < 3; m++) {
        const sp::Type& t = m == 1 ? b : a;
        ElementBlock e; e.element_type = t.type; e.entity_dim = t.dim; e.entity_tag = m == 1 ? other : 1; e.num_elements_in_block = 1 + m % 2;
        for (size_t j = 0; j < e.num_elements_in_block; j++) { e.data.push_back(tag++); for (size_t k = 0; k < t.nodes; k++) e.data.push_back(1 + (k * 7 + m + 3 * j) % 60); }
        s.elements.num_elements += e.num_elements_in_block;
        s.elements.entity_blocks.push_back(e);
    }
    s.elements.num_entity_blocks = 3; s.elements.min_element_tag = 10; s.elements.max_element_tag = tag - 1;
    return s;
}
// All order types of n values: for permutations every arrangement, otherwise every weak order.
inline std::vector<std::vector<int>> orders(int n, bool distinct) {
    std::vector<std::vector<int>> out;
    std::vector<int> v(static_cast<size_t>(n), 0);
    while (true) {
        std::set<int> used(v.begin(), v.end());
        const int most = *used.rbegin();
        if (static_cast<int>(used.size()) == most + 1 && (!distinct || most + 1 == n)) out.push_back(v);
        size_t k = 0;
        while (k < v.size() && ++v[k] == n) v[k++] = 0;
        if (k == v.size()) return out;
    }
}
// Relations between the values of one array: every order type of up to five (thorough: six) values, next to each other or apart.
inline MshSpec patterns(mc::Ctx& c, MshSpec s) {
    static const auto tables = [] { std::map<std::pair<int, bool>, std::vector<std::vector<int>>> t; for (int n = 1; n <= 6; n++) for (bool d : {false, true}) t[{n, d}] = orders(n, d); return t; }();
    enum { NodeTags, ElementTags, Connectivity, FirstNodes, EntityTags, PhysicalOfEntity, Boundary, GroupTags, EntryTags, EntryValues, Coordinates, IntTags, RealTags, BlockEntities, BlockDims, EntryNodes, Count };
    const uint32_t what = c.free_choose(Count);
    const int n = 1 + static_cast<int>(c.free_choose(c.thorough ? 6 : 5));
    const bool distinct = what == NodeTags || what == ElementTags || what == EntityTags || what == GroupTags;
    const std::vector<int>& ord = c.free_of(tables.at({n, distinct}));
    const int step = c.free_of<int>({1, 3});
    const int base = c.free_of<int>({1, 200});
    std::vector<int> v;
    for (int r : ord) v.push_back(base + step * r);
    const size_t m = v.size();
    auto plain = [m] { std::vector<int> p; for (size_t i = 0; i < m; i++) p.push_back(static_cast<int>(i) + 1); return p; };
    s.physical_groups.clear(); s.entities = Entities(); s.node_data.clear(); s.element_data.clear(); s.element_node_data.clear(); s.curves.clear(); s.patches.clear();
    s.nodes = Nodes(); s.elements = Elements();
    const std::vector<int> id = plain(), nt = what == NodeTags ? v : id, et = what == ElementTags ? v : id;
    // nodes: one block, or one per node
    std::vector<NodeBlock> nb;
    for (size_t i = 0; i < m; i++) {
        if (i == 0 || what == BlockDims) { NodeBlock b; b.entity_dim = what == BlockDims ? ord[i] % 4 : 1; b.entity_tag = what == BlockDims ? 1 + ord[i] / 4 : 1; b.parametric = 0; nb.push_back(b); }
        nb.back().tags.push_back(static_cast<size_t>(nt[i]));
        const double x = what == Coordinates ? v[i] : 0.5 * static_cast<double>(i);
        nb.back().data.insert(nb.back().data.end(), {x, 0.25, what == Coordinates ? v[m - 1 - i] : -1.0});
        nb.back().num_nodes_in_block = nb.back().tags.size();
    }
    s.nodes.entity_blocks = nb; s.nodes.num_entity_blocks = nb.size(); s.nodes.num_nodes = m;
    s.nodes.min_node_tag = static_cast<size_t>(*std::min_element(nt.begin(), nt.end())); s.nodes.max_node_tag = static_cast<size_t>(*std::max_element(nt.begin(), nt.end()));
    // elements
    const size_t at = *std::min_element(et.begin(), et.end()) ? static_cast<size_t>(*std::min_element(et.begin(), et.end())) : 0;
    size_t count = 0, top = 0;
    auto block = [&](int type, int dim, int tag) { ElementBlock b; b.element_type = type; b.entity_dim = dim; b.entity_tag = tag; b.num_elements_in_block = 0; s.elements.entity_blocks.push_back(b); };
    auto element = [&](size_t tag, const std::vector<int>& ranks) {
        ElementBlock& b = s.elements.entity_blocks.back();
        b.data.push_back(tag); for (int r : ranks) b.data.push_back(static_cast<size_t>(nt[static_cast<size_t>(r) % m]));
        b.num_elements_in_block++; count++; top = std::max(top, tag);
    };
    if (what == Connectivity) {
        static const int types[] = {15, 1, 2, 3, 7, 6};
        const int type = types[m - 1];
        block(type, sp::type_info(type)->dim, 1);
        element(1, ord); std::vector<int> back(ord.rbegin(), ord.rend()); element(2, back);
    } else if (what == BlockEntities || what == EntityTags) {
        for (size_t i = 0; i < m; i++) { block(1, 1, v[i]); element(i + 1, {static_cast<int>(i), static_cast<int>(i + 1)}); }
    } else {
        block(1, 1, 1);
        for (size_t i = 0; i < m; i++) element(static_cast<size_t>(et[i]), what == FirstNodes ? std::vector<int>{ord[i], ord[m - 1 - i]} : std::vector<int>{static_cast<int>(i), static_cast<int>(i + 1)});
    }
    s.elements.num_entity_blocks = s.elements.entity_blocks.size(); s.elements.num_elements = count; s.elements.min_element_tag = at; s.elements.max_element_tag = top;
    // entities
    auto curve = [&](int tag, std::vector<int> phys, std::vector<int> bound) { CurveEntity e; e.tag = tag; e.min_x = -1; e.max_z = tag; e.physical_group_tags = phys; e.boundary_point_tags = bound; s.entities.curves.push_back(e); };
    if (what == EntityTags) for (size_t i = 0; i < m; i++) curve(v[i], {static_cast<int>(i) + 50}, {});
    if (what == PhysicalOfEntity) { curve(1, v, {1}); PointEntity p; p.tag = 2; p.physical_group_tags = v; s.entities.points.push_back(p); }
    if (what == Boundary) { curve(1, {3}, v); SurfaceEntity e; e.tag = 4; e.boundary_curve_tags = v; s.entities.surfaces.push_back(e); VolumeEntity w; w.tag = 5; w.boundary_surface_tags = v; w.physical_group_tags = {6}; s.entities.volumes.push_back(w); }
    if (what == GroupTags) for (size_t i = 0; i < m; i++) { PhysicalGroup g; g.dim = ord[i] % 4; g.tag = v[i]; g.name = "n" + std::to_string(m - i); s.physical_groups.push_back(g); }
    // post-processing data
    if (what >= EntryTags && what != Coordinates && what != BlockEntities && what != BlockDims) {
        Data d; d.header.string_tags = {"view"}; d.header.real_tags = {1.5};
        d.header.int_tags = {0, 1, static_cast<int>(m)};
        if (what == IntTags) { d.header.int_tags = v; d.header.int_tags.insert(d.header.int_tags.begin(), {0, 1, 1}); }
        if (what == RealTags) { d.header.real_tags.clear(); for (int r : v) d.header.real_tags.push_back(r); }
        const size_t entries = what == IntTags || what == EntryValues ? 1 : m;
        const size_t width = what == EntryValues ? m : 1;
        d.header.int_tags[1] = static_cast<int>(width); d.header.int_tags[2] = static_cast<int>(entries);
        Data en = d;
        for (size_t i = 0; i < entries; i++) {
            DataEntry e; e.tag = static_cast<size_t>(what == EntryTags ? v[i] : id[i]);
            for (size_t k = 0; k < width; k++) e.data.push_back(what == EntryValues ? v[k] : 0.5);
            d.entries.push_back(e);
            e.num_nodes_per_element = what == EntryNodes ? 1 + ord[i] : 2;
            const std::vector<double> row = e.data; e.data.clear();
            for (int k = 0; k < e.num_nodes_per_element; k++) for (double x : row) e.data.push_back(x + k);
            en.entries.push_back(e);
        }
        if (what != EntryNodes) { s.node_data = {d}; s.element_data = {d, d}; }
        s.element_node_data = {en};
    }
    return s;
}
struct Encoded { std::string bytes; std::vector<ref::Encoder::Mark> marks; ref::File file; };
inline Encoded encode(const MshSpec& s, bool ext) {
    Encoded e;
    e.file = ref::content_of(s, ext);
    if (s.curves.empty() && s.patches.empty() && ext) e.file.order.erase(std::remove(e.file.order.begin(), e.file.order.end(), std::string("NanoSplineFormat")), e.file.order.end());
    ref::Style st;
    ref::Encoder enc(e.file, st);
    e.bytes = enc.file();
    e.marks = enc.marks;
    return e;
}
}  // namespace mini
