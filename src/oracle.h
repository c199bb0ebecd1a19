// What a decoded (reference) file denotes against what the library loaded.
#pragma once
#include "ref_codec.h"
namespace oracle {
using namespace sp;
// "" or the first difference.
inline std::string mismatch(const ref::File& f, const MshSpec& spec, bool ext, bool entity_known = true) {
    MshSpec want = f.content, got = spec;
    want.mesh_format = f.format;
    if (!ext) { strip_ext(want); strip_ext(got); }
    if (f.format.version == "4.1") {
        const std::string d = diff(want, got);
        return d.empty() ? "" : "the file loads as something else: " + d;
    }
    const std::string st = structure(got);
    if (!st.empty()) return st;
    MshSpec w = want, g = got;
    for (auto* s : {&w, &g}) { s->nodes = Nodes(); s->elements = Elements(); s->entities = Entities(); }
    std::string d = diff(w, g);
    if (!d.empty()) return "the file loads as something else: " + d;
    const Flat fl = flatten(got);
    if (fl.nodes.size() != f.nodes.size() || got.nodes.num_nodes != f.nodes.size()) return "number of nodes";
    for (size_t i = 0; i < f.nodes.size(); i++) {
        const FlatNode &a = f.nodes[i], &b = fl.nodes[i];
        if (!(a.tag == b.tag && bits(a.x) == bits(b.x) && bits(a.y) == bits(b.y) && bits(a.z) == bits(b.z))) return "node " + std::to_string(i) + " differs";
    }
    if (fl.elems.size() != f.elems.size() || got.elements.num_elements != f.elems.size()) return "number of elements";
    std::map<std::pair<int, int>, std::set<int>> phys;
    size_t nmin = std::numeric_limits<size_t>::max(), nmax = 0, emin = nmin, emax = 0;
    for (auto& n : f.nodes) { nmin = std::min(nmin, n.tag); nmax = std::max(nmax, n.tag); }
    for (size_t i = 0; i < f.elems.size(); i++) {
        auto& a = f.elems[i]; auto& b = fl.elems[i];
        const int dim = type_info(a.type)->dim;
        const std::string n = "element " + std::to_string(i);
        if (!(a.tag == b.tag && a.type == b.type && a.nodes == b.nodes && b.dim == dim)) return n + " differs";
        emin = std::min(emin, a.tag); emax = std::max(emax, a.tag);
        if (entity_known && a.tags.empty() && b.entity != untagged_entity(a.type)) return n + ": without tags, it has another entity than the same element alone in an ASCII file";
        if (entity_known && !a.tags.empty()) {
            const int ent = a.tags.size() > 1 ? a.tags[1] : a.tags[0];
            if (b.entity != ent) return n + ": entity is " + std::to_string(b.entity) + ", the file says " + std::to_string(ent);
            if (a.tags.size() > 1) phys[{dim, ent}].insert(a.tags[0]);
        }
    }
    if (f.nodes.empty()) nmin = nmax = 0;
    if (f.elems.empty()) emin = emax = 0;
    if (!(got.nodes.min_node_tag == nmin && got.nodes.max_node_tag == nmax)) return "node tag range";
    if (!(got.elements.min_element_tag == emin && got.elements.max_element_tag == emax)) return "element tag range";
    if (entity_known) {
        const PhysMap g2 = physical_map(got, false);
        for (auto& p : phys) { auto it = g2.find(p.first); if (it == g2.end() || it->second != p.second) return "physical tags of entity (" + std::to_string(p.first.first) + ", " + std::to_string(p.first.second) + ")"; }
        for (auto& p : g2) if (!phys.count(p.first)) return "an entity has physical tags the file does not give";
    }
    return "";
}
// The reference file restricted to the first k sections of its order.
inline ref::File first_sections(ref::File f, size_t k) {
    ref::File r;
    r.format = f.format;
    r.content.mesh_format = f.content.mesh_format;
    size_t nd = 0, ed = 0, en = 0;
    for (size_t i = 0; i < k; i++) {
        const std::string& n = f.order[i];
        r.order.push_back(n);
        if (n == "PhysicalNames") r.content.physical_groups = f.content.physical_groups;
        else if (n == "Entities") r.content.entities = f.content.entities;
        else if (n == "Nodes") { r.content.nodes = f.content.nodes; r.nodes = f.nodes; }
        else if (n == "Elements") { r.content.elements = f.content.elements; r.elems = f.elems; }
        else if (n == "NodeData") r.content.node_data.push_back(f.content.node_data[nd++]);
        else if (n == "ElementData") r.content.element_data.push_back(f.content.element_data[ed++]);
        else if (n == "ElementNodeData") r.content.element_node_data.push_back(f.content.element_node_data[en++]);
        else if (n == "NanoSplineFormat") r.content.nanospline_format = f.content.nanospline_format;
        else if (n == "Curves") r.content.curves = f.content.curves;
        else if (n == "Patches") r.content.patches = f.content.patches;
    }
    return r;
}
}  // namespace oracle
