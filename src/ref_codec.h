// An encoder and a decoder for MSH 2.2 and 4.1, written from the format documentation and sharing no
// code with the library.  The decoder is strict; the encoder asks a Style for every legal freedom.
#pragma once
#include <cctype>
#include <cerrno>
#include <clocale>
#include <cstdlib>
#include <stdexcept>

#include "spec.h"

namespace ref {
using namespace mshio;

struct LayoutError : std::runtime_error { using std::runtime_error::runtime_error; };

struct Elem22 { size_t tag; int type; std::vector<int> tags; std::vector<size_t> nodes; };
struct File {                      // a decoded (or to be encoded) file
    MeshFormat format;
    std::vector<std::string> order;  // section names in the order they appear
    MshSpec content;                 // 4.1: everything; 2.2: physical groups, data, splines
    std::vector<sp::FlatNode> nodes; // 2.2
    std::vector<Elem22> elems;       // 2.2
    std::vector<std::pair<size_t, size_t>> extents;  // of each section, '$' of the first to the end of the last marker
};

// ------------------------------------------------------------------------------------ decoder
class Decoder {
public:
    explicit Decoder(const std::string& bytes) : b(bytes) {}
    File decode() {
        f.content = MshSpec();
        bool first = true;
        while (p < b.size()) {
            if (b[p] != '$') err("a section marker is expected at the start of a line");
            const size_t e = b.find('\n', p);
            if (e == std::string::npos) err("section marker without line end");
            const std::string name = b.substr(p + 1, e - p - 1);
            const size_t start = p;
            p = e + 1;
            if (first != (name == "MeshFormat")) err("$MeshFormat must be the first section and appear once, found $" + name);
            first = false;
            f.order.push_back(name);
            section(name);
            end(name);
            f.extents.push_back({start, p - 1});
        }
        if (first) err("no $MeshFormat");
        f.content.mesh_format = f.format;
        order();
        return f;
    }

private:
    const std::string& b;
    size_t p = 0;
    File f;
    bool bin() const { return f.format.file_type == 1; }
    bool v22() const { return f.format.version == "2.2"; }
    [[noreturn]] void err(const std::string& m) const { throw LayoutError("layout: " + m + " (at byte " + std::to_string(p) + " of " + std::to_string(b.size()) + ")"); }

    // ---- text
    // (blanks or tabs between fields, and blanks, tabs or a carriage return before a line end, are legal)
    static bool blank(char c) { return c == ' ' || c == '\t'; }
    void sp() { if (p >= b.size() || !blank(b[p])) err("a blank is expected between fields"); while (p < b.size() && blank(b[p])) p++; }
    void nl() { while (p < b.size() && blank(b[p])) p++; if (!bin() && p + 1 < b.size() && b[p] == '\r' && b[p + 1] == '\n') p++; if (p >= b.size() || b[p] != '\n') err("a line end is expected"); p++; }
    std::string word() {
        const size_t s = p;
        while (p < b.size() && !blank(b[p]) && b[p] != '\n' && b[p] != '\r') p++;
        if (s == p) err("a field is expected");
        return b.substr(s, p - s);
    }
    static bool digits(const std::string& s, size_t k) { if (k >= s.size()) return false; for (; k < s.size(); k++) if (s[k] < '0' || s[k] > '9') return false; return true; }
    int64_t num() {
        const std::string w = word();
        if (!digits(w, w[0] == '-' ? 1 : 0)) err("an integer is expected, found " + sp::show(w));
        errno = 0;
        const long long v = strtoll(w.c_str(), nullptr, 10);
        if (errno) err("integer out of range: " + w);
        return v;
    }
    int integer() { const int64_t v = num(); if (v < -2147483648ll || v > 2147483647ll) err("not a 32-bit integer"); return static_cast<int>(v); }
    size_t size() {
        const std::string w = word();
        if (!digits(w, 0)) err("a non-negative integer is expected, found " + sp::show(w));
        errno = 0;
        const unsigned long long v = strtoull(w.c_str(), nullptr, 10);
        if (errno) err("integer out of range: " + w);
        return v;
    }
    double real() {
        const std::string w = word();
        for (char c : w) if (!strchr("0123456789+-.eE", c)) err("a decimal number is expected, found " + sp::show(w));
        char* e = nullptr;
        const double v = strtod(w.c_str(), &e);
        if (*e) err("a decimal number is expected, found " + sp::show(w));
        return v;
    }
    std::string quoted() {
        if (p >= b.size() || b[p] != '"') err("a quoted string is expected");
        std::string o;
        for (p++;; p++) {
            if (p >= b.size()) err("unterminated string");
            if (b[p] == '"') { p++; return o; }
            if (b[p] == '\\') { p++; if (p >= b.size()) err("unterminated string"); }
            o += b[p];
        }
    }
    // ---- binary
    template <class T> T rd() {
        T v;
        if (b.size() - p < sizeof(T)) err("the file ends inside binary data");
        memcpy(&v, b.data() + p, sizeof(T));
        p += sizeof(T);
        return v;
    }
    size_t count(size_t n, size_t width) const { if (width && n > (b.size() - p) / width) err("a count exceeds the file"); return n; }

    void end(const std::string& name) {
        if (bin() && p < b.size() && b[p] == '\n') p++;
        const std::string m = "$End" + name + "\n";
        if (b.compare(p, m.size(), m)) err("$End" + name + " is expected, found " + sp::show(b.substr(p, 40)));
        p += m.size();
    }
    void section(const std::string& n) {
        if (n == "MeshFormat") return mesh_format();
        if (n == "PhysicalNames") return physical();
        if (n == "Entities") { if (v22()) err("$Entities in 2.2"); return entities(); }
        if (n == "Nodes") return v22() ? nodes22() : nodes41();
        if (n == "Elements") return v22() ? elements22() : elements41();
        if (n == "NodeData") return data(f.content.node_data, false);
        if (n == "ElementData") return data(f.content.element_data, false);
        if (n == "ElementNodeData") return data(f.content.element_node_data, true);
        if (n == "NanoSplineFormat") { const size_t e = b.find('\n', p); if (e == std::string::npos) err("version"); f.content.nanospline_format.version = b.substr(p, e - p); p = e + 1; return; }
        if (n == "Curves") return curves();
        if (n == "Patches") return patches();
        err("unknown section $" + n);
    }
    void mesh_format() {
        f.format.version = word(); sp(); f.format.file_type = integer(); sp(); f.format.data_size = integer(); nl();
        if (f.format.version != "2.2" && f.format.version != "4.1") err("version " + f.format.version);
        if (f.format.file_type != 0 && f.format.file_type != 1) err("file type");
        if (bin() && rd<int32_t>() != 1) err("the endianness mark must be one");
    }
    void physical() {
        const size_t n = size(); nl();
        for (size_t i = 0; i < n; i++) {
            PhysicalGroup g;
            g.dim = integer(); sp(); g.tag = integer(); sp(); g.name = quoted(); nl();
            f.content.physical_groups.push_back(g);
        }
    }
    void tags(std::vector<int>& v) {
        if (bin()) { const size_t n = count(rd<uint64_t>(), 4); for (size_t i = 0; i < n; i++) v.push_back(rd<int32_t>()); }
        else { sp(); const size_t n = size(); for (size_t i = 0; i < n; i++) { sp(); v.push_back(integer()); } }
    }
    template <class E> void box(E& e) {
        if (bin()) { e.tag = rd<int32_t>(); e.min_x = rd<double>(); e.min_y = rd<double>(); e.min_z = rd<double>(); e.max_x = rd<double>(); e.max_y = rd<double>(); e.max_z = rd<double>(); }
        else { e.tag = integer(); sp(); e.min_x = real(); sp(); e.min_y = real(); sp(); e.min_z = real(); sp(); e.max_x = real(); sp(); e.max_y = real(); sp(); e.max_z = real(); }
        tags(e.physical_group_tags);
    }
    void entities() {
        size_t n[4];
        for (int i = 0; i < 4; i++) { if (bin()) n[i] = count(rd<uint64_t>(), 4); else { if (i) sp(); n[i] = size(); } }
        if (!bin()) nl();
        auto& e = f.content.entities;
        for (size_t i = 0; i < n[0]; i++) {
            PointEntity q;
            if (bin()) { q.tag = rd<int32_t>(); q.x = rd<double>(); q.y = rd<double>(); q.z = rd<double>(); }
            else { q.tag = integer(); sp(); q.x = real(); sp(); q.y = real(); sp(); q.z = real(); }
            tags(q.physical_group_tags);
            if (!bin()) nl();
            e.points.push_back(q);
        }
        for (size_t i = 0; i < n[1]; i++) { CurveEntity q; box(q); tags(q.boundary_point_tags); if (!bin()) nl(); e.curves.push_back(q); }
        for (size_t i = 0; i < n[2]; i++) { SurfaceEntity q; box(q); tags(q.boundary_curve_tags); if (!bin()) nl(); e.surfaces.push_back(q); }
        for (size_t i = 0; i < n[3]; i++) { VolumeEntity q; box(q); tags(q.boundary_surface_tags); if (!bin()) nl(); e.volumes.push_back(q); }
    }
    void nodes41() {
        auto& n = f.content.nodes;
        if (bin()) { n.num_entity_blocks = rd<uint64_t>(); n.num_nodes = rd<uint64_t>(); n.min_node_tag = rd<uint64_t>(); n.max_node_tag = rd<uint64_t>(); }
        else { n.num_entity_blocks = size(); sp(); n.num_nodes = size(); sp(); n.min_node_tag = size(); sp(); n.max_node_tag = size(); nl(); }
        size_t total = 0;
        for (size_t i = 0; i < n.num_entity_blocks; i++) {
            NodeBlock k;
            if (bin()) { k.entity_dim = rd<int32_t>(); k.entity_tag = rd<int32_t>(); k.parametric = rd<int32_t>(); k.num_nodes_in_block = count(rd<uint64_t>(), 32); }
            else { k.entity_dim = integer(); sp(); k.entity_tag = integer(); sp(); k.parametric = integer(); sp(); k.num_nodes_in_block = count(size(), 4); nl(); }
            if (k.parametric != 0 && k.parametric != 1) err("parametric flag");
            const size_t w = 3 + (k.parametric ? static_cast<size_t>(k.entity_dim) : 0);
            for (size_t j = 0; j < k.num_nodes_in_block; j++) { if (bin()) k.tags.push_back(rd<uint64_t>()); else { k.tags.push_back(size()); nl(); } }
            for (size_t j = 0; j < k.num_nodes_in_block; j++) {
                for (size_t q = 0; q < w; q++) { if (bin()) k.data.push_back(rd<double>()); else { if (q) sp(); k.data.push_back(real()); } }
                if (!bin()) nl();
            }
            total += k.num_nodes_in_block;
            n.entity_blocks.push_back(std::move(k));
        }
        if (total != n.num_nodes) err("total number of nodes");
    }
    void elements41() {
        auto& n = f.content.elements;
        if (bin()) { n.num_entity_blocks = rd<uint64_t>(); n.num_elements = rd<uint64_t>(); n.min_element_tag = rd<uint64_t>(); n.max_element_tag = rd<uint64_t>(); }
        else { n.num_entity_blocks = size(); sp(); n.num_elements = size(); sp(); n.min_element_tag = size(); sp(); n.max_element_tag = size(); nl(); }
        size_t total = 0;
        for (size_t i = 0; i < n.num_entity_blocks; i++) {
            ElementBlock k;
            if (bin()) { k.entity_dim = rd<int32_t>(); k.entity_tag = rd<int32_t>(); k.element_type = rd<int32_t>(); k.num_elements_in_block = count(rd<uint64_t>(), 16); }
            else { k.entity_dim = integer(); sp(); k.entity_tag = integer(); sp(); k.element_type = integer(); sp(); k.num_elements_in_block = count(size(), 4); nl(); }
            const sp::Type* t = sp::type_info(k.element_type);
            if (!t) err("element type");
            for (size_t j = 0; j < k.num_elements_in_block; j++) {
                for (size_t q = 0; q <= t->nodes; q++) { if (bin()) k.data.push_back(rd<uint64_t>()); else { if (q) sp(); k.data.push_back(size()); } }
                if (!bin()) nl();
            }
            total += k.num_elements_in_block;
            n.entity_blocks.push_back(std::move(k));
        }
        if (total != n.num_elements) err("total number of elements");
    }
    void nodes22() {
        const size_t n = size(); nl();
        for (size_t i = 0; i < n; i++) {
            sp::FlatNode q;
            if (bin()) { const int32_t t = rd<int32_t>(); if (t < 0) err("negative node number"); q.tag = static_cast<size_t>(t); q.x = rd<double>(); q.y = rd<double>(); q.z = rd<double>(); }
            else { q.tag = size(); sp(); q.x = real(); sp(); q.y = real(); sp(); q.z = real(); nl(); }
            f.nodes.push_back(q);
        }
    }
    void elements22() {
        const size_t n = size(); nl();
        if (!bin()) {
            for (size_t i = 0; i < n; i++) {
                Elem22 e;
                e.tag = size(); sp(); e.type = integer(); sp();
                const int k = integer();
                if (k < 0) err("number of tags");
                for (int j = 0; j < k; j++) { sp(); e.tags.push_back(integer()); }
                const sp::Type* t = sp::type_info(e.type);
                if (!t) err("element type");
                for (size_t j = 0; j < t->nodes; j++) { sp(); e.nodes.push_back(size()); }
                nl();
                f.elems.push_back(std::move(e));
            }
            return;
        }
        size_t done = 0;
        auto block = [&] {
            const int32_t type = rd<int32_t>(), m = rd<int32_t>(), k = rd<int32_t>();
            const sp::Type* t = sp::type_info(type);
            if (!t) err("element type");
            if (m < 0 || k < 0) err("element record header");
            for (int32_t i = 0; i < m; i++) {
                Elem22 e;
                e.type = type;
                auto tag = [&] { const int32_t v = rd<int32_t>(); if (v < 0) err("negative tag"); return static_cast<size_t>(v); };
                e.tag = tag();
                for (int32_t j = 0; j < k; j++) e.tags.push_back(rd<int32_t>());
                for (size_t j = 0; j < t->nodes; j++) e.nodes.push_back(tag());
                f.elems.push_back(std::move(e));
            }
            done += static_cast<size_t>(m);
        };
        while (done < n) block();
        if (done != n) err("total number of elements");
        // headers of empty record blocks carry nothing and are harmless
        auto at_end = [&](size_t k) { return b.compare(k, 13, "$EndElements\n") == 0; };
        while (!at_end(p) && !(p < b.size() && b[p] == '\n' && at_end(p + 1))) { block(); if (done != n) err("total number of elements"); }
    }
    void data(std::vector<Data>& v, bool en) {
        Data d;
        size_t n = size(); nl();
        for (size_t i = 0; i < n; i++) { d.header.string_tags.push_back(quoted()); nl(); }
        n = size(); nl();
        for (size_t i = 0; i < n; i++) { d.header.real_tags.push_back(real()); nl(); }
        n = size(); nl();
        for (size_t i = 0; i < n; i++) { d.header.int_tags.push_back(integer()); nl(); }
        if (d.header.int_tags.size() < 3 || d.header.int_tags[1] < 0 || d.header.int_tags[2] < 0) err("data integer tags");
        const size_t w = static_cast<size_t>(d.header.int_tags[1]), k = static_cast<size_t>(d.header.int_tags[2]);
        for (size_t i = 0; i < k; i++) {
            DataEntry e;
            size_t m = w;
            if (bin()) { const int32_t t = rd<int32_t>(); if (t < 0) err("negative tag"); e.tag = static_cast<size_t>(t); } else e.tag = size();
            if (en) {
                if (bin()) e.num_nodes_per_element = rd<int32_t>(); else { sp(); e.num_nodes_per_element = integer(); }
                if (e.num_nodes_per_element < 0) err("number of nodes per element");
                m *= static_cast<size_t>(e.num_nodes_per_element);
            }
            for (size_t j = 0; j < m; j++) { if (bin()) e.data.push_back(rd<double>()); else { sp(); e.data.push_back(real()); } }
            if (!bin()) { if (m || b[p] == '\n' || (b[p] == ' ' && p + 1 < b.size() && b[p + 1] == '\n')) nl(); else sp(); }  // an entry without values may not end its line
            d.entries.push_back(std::move(e));
        }
        v.push_back(std::move(d));
    }
    void values(std::vector<double>& v, size_t cps, size_t dim, size_t knots) {
        count(cps, 2); count(knots, 2);
        if (bin()) { for (size_t i = 0; i < cps * dim + knots; i++) v.push_back(rd<double>()); return; }
        for (size_t i = 0; i < cps; i++) { for (size_t j = 0; j < dim; j++) { if (j) sp(); v.push_back(real()); } nl(); }
        for (size_t i = 0; i < knots; i++) { v.push_back(real()); nl(); }
    }
    void curves() {
        const size_t n = size(); nl();
        for (size_t i = 0; i < n; i++) {
            Curve c;
            c.curve_tag = size(); sp(); c.curve_type = size(); sp(); c.curve_degree = size(); sp(); c.num_control_points = size(); sp(); c.num_knots = size(); sp(); c.with_weights = size(); nl();
            values(c.data, c.num_control_points, c.with_weights ? 4 : 3, c.num_knots);
            f.content.curves.push_back(std::move(c));
        }
    }
    void patches() {
        const size_t n = size(); nl();
        for (size_t i = 0; i < n; i++) {
            Patch c;
            c.patch_tag = size(); sp(); c.patch_type = size(); sp(); c.degree_u = size(); sp(); c.degree_v = size(); sp(); c.num_control_points = size(); sp();
            c.num_u_knots = size(); sp(); c.num_v_knots = size(); sp(); c.with_weights = size(); nl();
            values(c.data, c.num_control_points, c.with_weights ? 4 : 3, c.num_u_knots + c.num_v_knots);
            f.content.patches.push_back(std::move(c));
        }
    }
    // published order of the sections; data sections may repeat
    void order() const {
        static const std::vector<std::string> rank = {"MeshFormat", "PhysicalNames", "Entities", "Nodes", "Elements", "NodeData", "ElementData", "ElementNodeData", "NanoSplineFormat", "Curves", "Patches"};
        size_t last = 0;
        for (size_t i = 0; i < f.order.size(); i++) {
            const size_t r = static_cast<size_t>(std::find(rank.begin(), rank.end(), f.order[i]) - rank.begin());
            const bool data = r >= 5 && r <= 7;
            if (i && r < last && !(data && last <= 7)) throw LayoutError("layout: section $" + f.order[i] + " is out of order");
            if (i && !data) for (size_t j = 0; j < i; j++) if (f.order[j] == f.order[i]) throw LayoutError("layout: section $" + f.order[i] + " appears twice");
            last = std::max(last, r);
        }
    }
};

// ------------------------------------------------------------------------------------ encoder
struct Style {  // the plainest legal file
    virtual ~Style() = default;
    virtual std::string sep() { return " "; }          // between the fields of a line
    virtual std::string eol() { return "\n"; }         // line end in text
    virtual std::string marker_eol() { return eol(); }  // after a section marker
    virtual std::string before_section() { return ""; }
    virtual std::string after_binary() { return "\n"; }
    virtual std::string after_section() { return "\n"; }
    virtual std::string u(uint64_t v) { return std::to_string(v); }
    virtual std::string i(int64_t v) { return std::to_string(v); }
    virtual std::string d(double v) { char t[64]; snprintf(t, sizeof t, "%.17g", v); return t; }
    virtual std::string q(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }
    virtual size_t group(size_t most) { return most; }  // 2.2 binary: elements in the next record block
};

class Encoder {
public:
    Encoder(const File& file, Style& style) : f(file), st(style) {}
    struct Mark { size_t pos, len; char kind; bool text() const { return kind != 'b'; } };  // fields in order; m marker, v version, u, i, d, q text, b binary
    std::vector<Mark> marks;
    std::vector<std::pair<size_t, size_t>> extents;
    // One encoded section, "$Name" to "$EndName" (without the line end after it).
    std::string section(const std::string& name, size_t index = 0) {
        o.clear();
        base = 0;
        return section_at(name, index);
    }
    std::string file() {
        std::string r;
        std::map<std::string, size_t> k;
        for (auto& n : f.order) { r += st.before_section(); o.clear(); base = r.size(); r += section_at(n, k[n]++); extents.push_back({base, r.size()}); r += st.after_section(); }
        return r;
    }

private:
    const File& f;
    Style& st;
    std::string o;
    bool bin() const { return f.format.file_type == 1; }
    bool v22() const { return f.format.version == "2.2"; }
    bool bin_body(const std::string& n) const { return bin() && n != "PhysicalNames" && n != "MeshFormat" && n != "NanoSplineFormat"; }
    size_t base = 0;
    void mark(size_t len, char kind) { marks.push_back({base + o.size(), len, kind}); }
    std::string section_at(const std::string& name, size_t index) {
        mark(name.size() + 1, 'm');
        o += "$" + name;
        o += bin_body(name) ? "\n" : st.marker_eol();
        blank = false;
        if (name == "MeshFormat") mesh_format();
        else if (name == "PhysicalNames") physical();
        else if (name == "Entities") entities();
        else if (name == "Nodes") { if (v22()) nodes22(); else nodes41(); }
        else if (name == "Elements") { if (v22()) elements22(); else elements41(); }
        else if (name == "NodeData") data(f.content.node_data.at(index), false);
        else if (name == "ElementData") data(f.content.element_data.at(index), false);
        else if (name == "ElementNodeData") data(f.content.element_node_data.at(index), true);
        else if (name == "NanoSplineFormat") { text(f.content.nanospline_format.version, 'v'); line(); }
        else if (name == "Curves") curves();
        else if (name == "Patches") patches();
        if (blank) o.back() = '\n';  // an end marker stands on its own line
        mark(name.size() + 4, 'm');
        o += "$End" + name;
        return o;
    }
    template <class T> void wr(T v) { blank = false; mark(sizeof v, 'b'); o.append(reinterpret_cast<const char*>(&v), sizeof v); }
    bool fresh = true;
    void fs() { if (!fresh) o += st.sep(); fresh = false; }
    void text(const std::string& t, char kind) { blank = false; mark(t.size(), kind); o += t; }
    void u(uint64_t v) { fs(); text(st.u(v), 'u'); }
    void i(int64_t v) { fs(); text(st.i(v), 'i'); }
    void d(double v) { fs(); text(st.d(v), 'd'); }
    bool blank = false;
    void line() { const std::string e = st.eol(); blank = e == " "; o += e; fresh = true; }
    void exact_line() { blank = false; o += "\n"; fresh = true; }  // before binary data
    void fin() { if (bin()) { blank = false; o += st.after_binary(); } }
    void mesh_format() {
        fs(); text(f.format.version, 'v'); i(f.format.file_type); i(f.format.data_size);
        if (bin()) { exact_line(); wr<int32_t>(1); fin(); } else line();
    }
    void physical() {
        u(f.content.physical_groups.size()); line();
        for (auto& g : f.content.physical_groups) { i(g.dim); i(g.tag); fs(); text(st.q(g.name), 'q'); line(); }
    }
    void ints(const std::vector<int>& v) {
        if (bin()) { wr<uint64_t>(v.size()); for (int x : v) wr<int32_t>(x); }
        else { u(v.size()); for (int x : v) i(x); }
    }
    template <class E> void box(const E& e) {
        if (bin()) { wr<int32_t>(e.tag); for (double x : {e.min_x, e.min_y, e.min_z, e.max_x, e.max_y, e.max_z}) wr(x); }
        else { i(e.tag); for (double x : {e.min_x, e.min_y, e.min_z, e.max_x, e.max_y, e.max_z}) d(x); }
        ints(e.physical_group_tags);
    }
    void entities() {
        auto& e = f.content.entities;
        for (size_t n : {e.points.size(), e.curves.size(), e.surfaces.size(), e.volumes.size()}) { if (bin()) wr<uint64_t>(n); else u(n); }
        if (!bin()) line();
        for (auto& q : e.points) {
            if (bin()) { wr<int32_t>(q.tag); wr(q.x); wr(q.y); wr(q.z); } else { i(q.tag); d(q.x); d(q.y); d(q.z); }
            ints(q.physical_group_tags);
            if (!bin()) line();
        }
        for (auto& q : e.curves) { box(q); ints(q.boundary_point_tags); if (!bin()) line(); }
        for (auto& q : e.surfaces) { box(q); ints(q.boundary_curve_tags); if (!bin()) line(); }
        for (auto& q : e.volumes) { box(q); ints(q.boundary_surface_tags); if (!bin()) line(); }
        fin();
    }
    void nodes41() {
        auto& n = f.content.nodes;
        for (uint64_t v : {n.num_entity_blocks, n.num_nodes, n.min_node_tag, n.max_node_tag}) { if (bin()) wr<uint64_t>(v); else u(v); }
        if (!bin()) line();
        for (auto& k : n.entity_blocks) {
            for (int v : {k.entity_dim, k.entity_tag, k.parametric}) { if (bin()) wr<int32_t>(v); else i(v); }
            if (bin()) wr<uint64_t>(k.num_nodes_in_block); else { u(k.num_nodes_in_block); line(); }
            const size_t w = 3 + (k.parametric ? static_cast<size_t>(k.entity_dim) : 0);
            for (size_t t : k.tags) { if (bin()) wr<uint64_t>(t); else { u(t); line(); } }
            for (size_t j = 0; j < k.data.size(); j++) { if (bin()) wr(k.data[j]); else { d(k.data[j]); if (j % w == w - 1) line(); } }
        }
        fin();
    }
    void elements41() {
        auto& n = f.content.elements;
        for (uint64_t v : {n.num_entity_blocks, n.num_elements, n.min_element_tag, n.max_element_tag}) { if (bin()) wr<uint64_t>(v); else u(v); }
        if (!bin()) line();
        for (auto& k : n.entity_blocks) {
            for (int v : {k.entity_dim, k.entity_tag, k.element_type}) { if (bin()) wr<int32_t>(v); else i(v); }
            if (bin()) wr<uint64_t>(k.num_elements_in_block); else { u(k.num_elements_in_block); line(); }
            const size_t w = sp::type_info(k.element_type)->nodes + 1;
            for (size_t j = 0; j < k.data.size(); j++) { if (bin()) wr<uint64_t>(k.data[j]); else { u(k.data[j]); if (j % w == w - 1) line(); } }
        }
        fin();
    }
    void nodes22() {
        u(f.nodes.size());
        if (bin()) exact_line(); else line();
        for (auto& q : f.nodes) {
            if (bin()) { wr<int32_t>(static_cast<int32_t>(q.tag)); wr(q.x); wr(q.y); wr(q.z); }
            else { u(q.tag); d(q.x); d(q.y); d(q.z); line(); }
        }
        fin();
    }
    void elements22() {
        u(f.elems.size());
        if (bin()) exact_line(); else line();
        if (!bin()) {
            for (auto& e : f.elems) { u(e.tag); i(e.type); i(static_cast<int64_t>(e.tags.size())); for (int t : e.tags) i(t); for (size_t t : e.nodes) u(t); line(); }
            return;
        }
        for (size_t k = 0; k < f.elems.size();) {
            size_t most = 1;
            while (k + most < f.elems.size() && f.elems[k + most].type == f.elems[k].type && f.elems[k + most].tags.size() == f.elems[k].tags.size()) most++;
            const size_t m = st.group(most);
            wr<int32_t>(f.elems[k].type); wr<int32_t>(static_cast<int32_t>(m)); wr<int32_t>(static_cast<int32_t>(f.elems[k].tags.size()));
            for (size_t j = 0; j < m; j++, k++) {
                wr<int32_t>(static_cast<int32_t>(f.elems[k].tag));
                for (int t : f.elems[k].tags) wr<int32_t>(t);
                for (size_t t : f.elems[k].nodes) wr<int32_t>(static_cast<int32_t>(t));
            }
        }
        fin();
    }
    void data(const Data& q, bool en) {
        u(q.header.string_tags.size()); line();
        for (auto& s : q.header.string_tags) { fs(); text(st.q(s), 'q'); line(); }
        u(q.header.real_tags.size()); line();
        for (double x : q.header.real_tags) { d(x); line(); }
        u(q.header.int_tags.size()); line();
        for (size_t k = 0; k < q.header.int_tags.size(); k++) { i(q.header.int_tags[k]); if (bin() && k + 1 == q.header.int_tags.size()) exact_line(); else line(); }
        for (auto& e : q.entries) {
            if (bin()) { wr<int32_t>(static_cast<int32_t>(e.tag)); if (en) wr<int32_t>(e.num_nodes_per_element); for (double x : e.data) wr(x); }
            else { u(e.tag); if (en) i(e.num_nodes_per_element); for (double x : e.data) d(x); line(); }
        }
        fin();
    }
    void spline(std::initializer_list<size_t> head, const std::vector<double>& v) {
        for (size_t h : head) u(h);
        if (bin()) { exact_line(); for (double x : v) wr(x); }
        else { line(); for (double x : v) { d(x); line(); } }
    }
    void curves() {
        u(f.content.curves.size());
        if (bin()) exact_line(); else line();
        for (auto& c : f.content.curves) spline({c.curve_tag, c.curve_type, c.curve_degree, c.num_control_points, c.num_knots, c.with_weights}, c.data);
        fin();
    }
    void patches() {
        u(f.content.patches.size());
        if (bin()) exact_line(); else line();
        for (auto& c : f.content.patches) spline({c.patch_tag, c.patch_type, c.degree_u, c.degree_v, c.num_control_points, c.num_u_knots, c.num_v_knots, c.with_weights}, c.data);
        fin();
    }
};

// The sections a specification needs, in published order.
inline std::vector<std::string> plain_order(const MshSpec& s, bool ext) {
    std::vector<std::string> o{"MeshFormat"};
    if (!s.physical_groups.empty()) o.push_back("PhysicalNames");
    if (!s.entities.empty() && s.mesh_format.version == "4.1") o.push_back("Entities");
    if (s.nodes.num_nodes) o.push_back("Nodes");
    if (s.elements.num_elements) o.push_back("Elements");
    for (size_t i = 0; i < s.node_data.size(); i++) o.push_back("NodeData");
    for (size_t i = 0; i < s.element_data.size(); i++) o.push_back("ElementData");
    for (size_t i = 0; i < s.element_node_data.size(); i++) o.push_back("ElementNodeData");
    if (ext) {
        o.push_back("NanoSplineFormat");
        if (!s.curves.empty()) o.push_back("Curves");
        if (!s.patches.empty()) o.push_back("Patches");
    }
    return o;
}
// The file content a specification denotes.  Element tags in 2.2: [physical, entity], or [entity].
inline File content_of(const MshSpec& s, bool ext) {
    File f;
    f.format = s.mesh_format;
    f.content = sp::stored(s);
    f.order = plain_order(s, ext);
    if (s.mesh_format.version == "2.2") {
        const sp::Flat fl = sp::flatten(f.content);
        f.nodes = fl.nodes;
        std::map<std::pair<int, int>, int> phys;
        auto add = [&](int dim, auto& v) { for (auto& e : v) if (!e.physical_group_tags.empty()) phys.insert({{dim, e.tag}, e.physical_group_tags[0]}); };
        add(0, s.entities.points); add(1, s.entities.curves); add(2, s.entities.surfaces); add(3, s.entities.volumes);
        for (auto& e : fl.elems) {
            Elem22 q{e.tag, e.type, {}, e.nodes};
            auto it = phys.find({e.dim, e.entity});
            if (it != phys.end()) q.tags.push_back(it->second);
            q.tags.push_back(e.entity);
            f.elems.push_back(q);
        }
    }
    return f;
}
}  // namespace ref
