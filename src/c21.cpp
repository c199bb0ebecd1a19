// C21: the cost of every call grows with the content, not faster.
//
// The library is compiled with -fsanitize=trace-pc coverage: every basic block it runs counts one
// step.  Bytes moved, compared or scanned by libc (also on behalf of libstdc++), bytes allocated,
// and bytes and calls of the streams count too.  Every kind of content, every pair and every order
// of tags grows by the same factor, and the cost may not grow by more than a small multiple of it.
#define ALLOC_COUNT_LIVE
#include "mini.h"
#include "oracle.h"
#include "sysio.h"
#include <malloc.h>
#include <cstdarg>
using namespace mc; using namespace sp; using namespace gen;

namespace cost {
static uint64_t steps = 0, moved = 0, allocated = 0, streamed = 0, live = 0, peak = 0;
static bool on = false;
struct Sum { uint64_t steps, moved, allocated, streamed, peak; uint64_t total() const { return steps + moved / 8 + allocated / 8 + streamed; } };
static void start() { steps = moved = allocated = streamed = live = peak = 0; on = true; }
static Sum stop() { on = false; return {steps, moved, allocated, streamed, peak}; }
}  // namespace cost
#define PUBLIC extern "C" __attribute__((visibility("default"), used))
PUBLIC void __sanitizer_cov_trace_pc() { cost::steps++; }
PUBLIC void* memcpy(void* d, const void* s, size_t n) { if (cost::on) cost::moved += n; void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); return r; }
PUBLIC void* memmove(void* d, const void* s, size_t n) {
    if (cost::on) cost::moved += n;
    void* r = d;
    if (d <= s || static_cast<char*>(d) >= static_cast<const char*>(s) + n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
    else { d = static_cast<char*>(d) + n - 1; s = static_cast<const char*>(s) + n - 1; asm volatile("std; rep movsb; cld" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }
    return r;
}
PUBLIC void* memset(void* d, int v, size_t n) { if (cost::on) cost::moved += n; void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r; }
PUBLIC int memcmp(const void* a, const void* b, size_t n) {
    const unsigned char *x = static_cast<const unsigned char*>(a), *y = static_cast<const unsigned char*>(b);
    size_t i = 0;
    while (i < n && x[i] == y[i]) { i++; asm volatile("" ::: "memory"); }
    if (cost::on) cost::moved += i;
    return i == n ? 0 : x[i] < y[i] ? -1 : 1;
}
PUBLIC void* find_byte(const void* a, int v, size_t n) noexcept __asm__("memchr");
void* find_byte(const void* a, int v, size_t n) noexcept {
    const unsigned char* x = static_cast<const unsigned char*>(a);
    size_t i = 0;
    while (i < n && x[i] != static_cast<unsigned char>(v)) { i++; asm volatile("" ::: "memory"); }
    if (cost::on) cost::moved += i;
    return i == n ? nullptr : const_cast<unsigned char*>(x + i);
}
PUBLIC size_t strlen(const char* s) { size_t i = 0; while (s[i]) { i++; asm volatile("" ::: "memory"); } if (cost::on) cost::moved += i; return i; }
// sscanf and its relatives look for the end of the whole text first
PUBLIC int __isoc99_sscanf(const char* s, const char* f, ...) { if (cost::on) cost::moved += strlen(s); va_list a; va_start(a, f); const int r = vsscanf(s, f, a); va_end(a); return r; }
PUBLIC int __isoc23_sscanf(const char* s, const char* f, ...) { if (cost::on) cost::moved += strlen(s); va_list a; va_start(a, f); const int r = vsscanf(s, f, a); va_end(a); return r; }

static std::size_t most = 1u << 28;  // a larger request fails
static void* take(std::size_t n) {
    void* p = n > most ? nullptr : std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (cost::on) { cost::allocated += n + 16; cost::live += malloc_usable_size(p); cost::peak = std::max(cost::peak, cost::live); }
    return p;
}
static void drop(void* p) { if (p && cost::on) { const uint64_t n = malloc_usable_size(p); cost::live -= std::min(cost::live, n); } std::free(p); }
void* operator new(std::size_t n) { return take(n); }
void* operator new[](std::size_t n) { return take(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, std::size_t) noexcept { drop(p); }
void operator delete[](void* p, std::size_t) noexcept { drop(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { drop(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { drop(p); }

// Streams in small pieces, so that bytes read again after a seek are counted about as often as they are read.
class InBuf : public std::streambuf {
public:
    explicit InBuf(const std::string& b) : bytes(b) { place(0, 0); }
protected:
    static constexpr size_t PIECE = 32;
    const std::string& bytes;
    size_t at = 0;  // offset of egptr
    void place(size_t from, size_t n) { char* p = const_cast<char*>(bytes.data()) + from; setg(p, p, p + n); at = from + n; }
    int_type underflow() override {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (at >= bytes.size()) return traits_type::eof();
        const size_t n = std::min(PIECE, bytes.size() - at);
        cost::streamed += n;
        place(at, n);
        return traits_type::to_int_type(*gptr());
    }
    std::streamsize xsgetn(char* d, std::streamsize n) override {
        const size_t now = at - static_cast<size_t>(egptr() - gptr()), k = std::min(static_cast<size_t>(n), bytes.size() - now);
        memcpy(d, bytes.data() + now, k);
        cost::streamed += k + 1;
        place(now + k, 0);
        return static_cast<std::streamsize>(k);
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
        cost::streamed++;
        const off_type now = static_cast<off_type>(at) - (egptr() - gptr());
        const off_type to = o + (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? now : static_cast<off_type>(bytes.size()));
        if (to < 0 || to > static_cast<off_type>(bytes.size())) return pos_type(off_type(-1));
        if (to != now) place(static_cast<size_t>(to), 0);
        return pos_type(to);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
class OutBuf : public std::streambuf {
public:
    std::string bytes;
    explicit OutBuf(size_t expect) { bytes.reserve(expect); }
protected:
    int_type overflow(int_type x) override { cost::streamed++; if (x != traits_type::eof()) bytes += static_cast<char>(x); return 0; }
    std::streamsize xsputn(const char* d, std::streamsize n) override { cost::streamed += static_cast<uint64_t>(n) + 1; const bool was = cost::on; cost::on = false; bytes.append(d, static_cast<size_t>(n)); cost::on = was; return n; }
    int sync() override { cost::streamed++; return 0; }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
        cost::streamed++;
        return o == 0 && d != std::ios_base::beg ? pos_type(static_cast<off_type>(bytes.size())) : pos_type(off_type(-1));
    }
};

// ---- content: n of one kind
struct Size { size_t n; uint32_t numbering; };
static size_t number(const Size& z, size_t i) {  // the i-th tag
    switch (z.numbering) {
    case 0: return i + 1;
    case 1: return z.n - i;
    case 2: return (i + 1) * 1001;
    case 4: return (i + 1) * (2147483000u / z.n);  // as sparse as 32 bits allow
    default: return (i * 2654435761u) % 2000003u + 1;  // scattered
    }
}
static void add_node_block(MshSpec& s, const Size& z, size_t from, size_t count, int tag, int parametric) {
    NodeBlock b; b.entity_dim = 2; b.entity_tag = tag; b.parametric = parametric; b.num_nodes_in_block = count;
    for (size_t i = 0; i < count; i++) { b.tags.push_back(number(z, from + i)); for (int k = 0; k < (parametric ? 5 : 3); k++) b.data.push_back(static_cast<double>(i % 7)); }
    s.nodes.entity_blocks.push_back(std::move(b)); s.nodes.num_entity_blocks++; s.nodes.num_nodes += count;
    s.nodes.min_node_tag = 1; s.nodes.max_node_tag = 2147483000u;
}
static void add_element_block(MshSpec& s, const Size& z, size_t from, size_t count, int tag, int type = 2) {
    ElementBlock b; b.entity_dim = type_info(type)->dim; b.entity_tag = tag; b.element_type = type; b.num_elements_in_block = count;
    for (size_t i = 0; i < count; i++) { b.data.push_back(number(z, from + i)); for (size_t k = 0; k < type_info(type)->nodes; k++) b.data.push_back(number(z, (from + i + k) % z.n)); }
    s.elements.entity_blocks.push_back(std::move(b)); s.elements.num_entity_blocks++; s.elements.num_elements += count;
    s.elements.min_element_tag = 1; s.elements.max_element_tag = 2147483000u;
    s.nodes.min_node_tag = 1; s.nodes.max_node_tag = 2147483000u;
}
static Data field(size_t str, size_t real, size_t ints, size_t entries, const Size& z, int per_element, size_t components = 1) {
    Data d;
    for (size_t i = 0; i < str; i++) d.header.string_tags.push_back("name");
    for (size_t i = 0; i < real; i++) d.header.real_tags.push_back(0.5);
    d.header.int_tags = {0, static_cast<int>(components), static_cast<int>(entries)};
    for (size_t i = 3; i < ints; i++) d.header.int_tags.push_back(1);
    for (size_t i = 0; i < entries; i++) { DataEntry e; e.tag = number(z, i); e.num_nodes_per_element = per_element; e.data.assign(components * static_cast<size_t>(per_element ? per_element : 1), 1.5); d.entries.push_back(std::move(e)); }
    return d;
}
struct Kind { const char* name; std::function<void(MshSpec&, const Size&)> add; };
template <class E> static void entity(std::vector<E>& l, int tag, size_t physical) { E e; e.tag = tag; for (size_t i = 0; i < physical; i++) e.physical_group_tags.push_back(static_cast<int>(i) + 1); l.push_back(std::move(e)); }
static const std::vector<Kind>& kinds() {
    static const std::vector<Kind> k = {
        {"nodes in one block", [](MshSpec& s, const Size& z) { add_node_block(s, z, 0, z.n, 1, 0); }},
        {"node blocks", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) add_node_block(s, z, i, 1, static_cast<int>(number(z, i)), 0); }},
        {"parametric node blocks", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) add_node_block(s, z, i, 1, static_cast<int>(number(z, i)), 1); }},
        {"empty node blocks", [](MshSpec& s, const Size& z) { add_node_block(s, z, 0, 1, 1, 0); for (size_t i = 0; i < z.n; i++) add_node_block(s, z, 0, 0, static_cast<int>(number(z, i)), 0); }},
        {"elements in one block", [](MshSpec& s, const Size& z) { add_element_block(s, z, 0, z.n, 1); }},
        {"element blocks", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) add_element_block(s, z, i, 1, static_cast<int>(number(z, i))); }},
        {"element blocks of one entity", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) add_element_block(s, z, i, 1, 1); }},
        {"element blocks of two entities in turn", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) add_element_block(s, z, i, 1, 1 + static_cast<int>(i % 2)); }},
        {"element blocks of two types in turn", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) add_element_block(s, z, i, 1, 1, i % 2 ? 2 : 4); }},
        {"elements around one node", [](MshSpec& s, const Size& z) { add_element_block(s, z, 0, z.n, 1); for (size_t i = 1; i < s.elements.entity_blocks.back().data.size(); i += 4) s.elements.entity_blocks.back().data[i] = number(z, 0); }},
        {"elements of many nodes", [](MshSpec& s, const Size& z) { add_element_block(s, z, 0, z.n, 1, 29); }},
        {"element blocks of every type in turn", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) add_element_block(s, z, i, 1, 1, types()[i % types().size()].type); }},
        {"points", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) entity(s.entities.points, static_cast<int>(number(z, i)), 1); }},
        {"curves", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) entity(s.entities.curves, static_cast<int>(number(z, i)), 1); }},
        {"surfaces", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) entity(s.entities.surfaces, static_cast<int>(number(z, i)), 1); }},
        {"surfaces without groups", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) entity(s.entities.surfaces, static_cast<int>(number(z, i)), 0); }},
        {"volumes", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) entity(s.entities.volumes, static_cast<int>(number(z, i)), 1); }},
        {"physical tags of one entity", [](MshSpec& s, const Size& z) { entity(s.entities.surfaces, 1, z.n); }},
        {"physical tags of several entities", [](MshSpec& s, const Size& z) { for (int k = 0; k < 3; k++) { entity(s.entities.points, k, z.n / 4); entity(s.entities.curves, k, z.n / 4); entity(s.entities.volumes, k, z.n / 4); } }},
        {"boundaries of several entities", [](MshSpec& s, const Size& z) { for (int k = 0; k < 3; k++) { entity(s.entities.curves, k, 1); entity(s.entities.surfaces, k, 1); for (size_t i = 0; i < z.n / 3; i++) { s.entities.curves.back().boundary_point_tags.push_back(static_cast<int>(i)); s.entities.surfaces.back().boundary_curve_tags.push_back(static_cast<int>(i)); } } }},
        {"boundary of one entity", [](MshSpec& s, const Size& z) { entity(s.entities.volumes, 1, 1); for (size_t i = 0; i < z.n; i++) s.entities.volumes.back().boundary_surface_tags.push_back(static_cast<int>(number(z, i))); }},
        {"physical groups", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) { PhysicalGroup g; g.dim = 2; g.tag = static_cast<int>(number(z, i)); g.name = "group"; s.physical_groups.push_back(g); } }},
        {"a long name", [](MshSpec& s, const Size& z) { PhysicalGroup g; g.dim = 2; g.tag = 1; g.name = std::string(16 * z.n, 'n'); s.physical_groups.push_back(g); }},
        {"a name of quotes and backslashes", [](MshSpec& s, const Size& z) { PhysicalGroup g; g.dim = 2; g.tag = 1; for (size_t i = 0; i < 8 * z.n; i++) g.name += i % 3 ? "\"" : "\\"; s.physical_groups.push_back(g); }},
        {"node data sections", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) s.node_data.push_back(field(1, 1, 3, 1, z, 0)); }},
        {"node data entries", [](MshSpec& s, const Size& z) { s.node_data.push_back(field(1, 1, 3, z.n, z, 0)); }},
        {"node data string tags", [](MshSpec& s, const Size& z) { s.node_data.push_back(field(z.n, 1, 3, 1, z, 0)); }},
        {"node data real tags", [](MshSpec& s, const Size& z) { s.node_data.push_back(field(1, z.n, 3, 1, z, 0)); }},
        {"node data integer tags", [](MshSpec& s, const Size& z) { s.node_data.push_back(field(1, 1, z.n + 3, 1, z, 0)); }},
        {"node data components", [](MshSpec& s, const Size& z) { s.node_data.push_back(field(1, 1, 3, 1, z, 0, z.n)); }},
        {"element data sections", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) s.element_data.push_back(field(1, 1, 3, 1, z, 0)); }},
        {"element data entries", [](MshSpec& s, const Size& z) { s.element_data.push_back(field(1, 1, 3, z.n, z, 0)); }},
        {"element node data sections", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) s.element_node_data.push_back(field(1, 1, 3, 1, z, 2)); }},
        {"element node data entries", [](MshSpec& s, const Size& z) { s.element_node_data.push_back(field(1, 1, 3, z.n, z, 3)); }},
        {"nodes of one element node data entry", [](MshSpec& s, const Size& z) { s.element_node_data.push_back(field(1, 1, 3, 1, z, static_cast<int>(z.n))); }},
        {"spline curves", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) { Curve c; c.curve_tag = number(z, i); c.curve_degree = 1; c.num_control_points = 2; c.num_knots = 2; c.data.assign(8, 0.5); s.curves.push_back(c); } }},
        {"control points of one curve", [](MshSpec& s, const Size& z) { Curve c; c.curve_tag = 1; c.curve_degree = 1; c.num_control_points = z.n; c.num_knots = z.n; c.data.assign(4 * z.n, 0.5); s.curves.push_back(c); }},
        {"spline patches", [](MshSpec& s, const Size& z) { for (size_t i = 0; i < z.n; i++) { Patch p; p.patch_tag = number(z, i); p.degree_u = p.degree_v = 1; p.num_control_points = 4; p.num_u_knots = p.num_v_knots = 2; p.data.assign(16, 0.5); s.patches.push_back(p); } }},
    };
    return k;
}
struct Cost { bool ok = false; uint64_t cost = 0, peak = 0; std::string bytes, error; };
static Cost run_load(const std::string& bytes) {
    Cost r;
    InBuf buf(bytes);
    std::istream in(&buf);
    {
        MshSpec keep;
        cost::start();
        try { keep = load_msh(in); r.ok = true; } catch (const std::exception& e) { r.error = e.what(); }
        const cost::Sum s = cost::stop();
        if (s.steps < 10) throw Internal("the library does not count its steps");
        r.cost = s.total(); r.peak = s.peak;
    }
    return r;
}
static Cost run_save(const MshSpec& s, size_t expect) {
    Cost r;
    OutBuf buf(expect);
    std::ostream out(&buf);
    cost::start();
    try { save_msh(out, s); r.ok = out.good(); } catch (const std::exception& e) { r.error = e.what(); }
    const cost::Sum t = cost::stop();
    if (t.steps < 10) throw Internal("the library does not count its steps");
    r.cost = t.total(); r.peak = t.peak; r.bytes = std::move(buf.bytes);
    return r;
}
static Cost run_validate(const MshSpec& s) {
    Cost r;
    cost::start();
    try { validate_spec(s); r.ok = true; } catch (const std::exception& e) { r.error = e.what(); }
    const cost::Sum t = cost::stop();
    r.cost = t.total(); r.peak = t.peak;
    return r;
}
constexpr double SLACK = 3;  // logarithms and the doubling of arrays; what is quadratic grows by the factor again
static void judge(Ctx& c, const char* what, const Cost& a, const Cost& b, double factor, const std::string& of, size_t size0) {
    // in absolute terms, too (30 steps and 40 bytes are the most seen): a cost may not follow the largest tag, for instance
    if (a.cost > 2000 * (size0 + 200)) c.fail("the cost of " + std::string(what) + " is out of proportion: " + of + ": " + std::to_string(a.cost) + " steps for " + std::to_string(size0) + " bytes");
    if (a.peak > 1000 * (size0 + 200)) c.fail("the memory of " + std::string(what) + " is out of proportion: " + of + ": " + std::to_string(a.peak) + " bytes for a file of " + std::to_string(size0));
    c.step(2); c.evaluated();
    if (getenv("MSHIO_COST")) fprintf(stderr, "%s of %s: %llu -> %llu (%.2f), peak %llu -> %llu (%.2f)\n", what, of.c_str(), (unsigned long long)a.cost, (unsigned long long)b.cost, static_cast<double>(b.cost) / factor / static_cast<double>(a.cost), (unsigned long long)a.peak, (unsigned long long)b.peak, static_cast<double>(b.peak) / factor / static_cast<double>(std::max<uint64_t>(1, a.peak)));
    auto over = [&](uint64_t x, uint64_t y) { return static_cast<double>(y) > SLACK * factor * static_cast<double>(std::max<uint64_t>(x, 4000)); };
    if (over(a.cost, b.cost)) c.fail("the cost of " + std::string(what) + " grows faster than the content: " + of + ": " + std::to_string(a.cost) + " steps, " + std::to_string(b.cost) + " when the content is " + std::to_string(static_cast<int>(factor)) + " times as large");
    if (over(a.peak, b.peak)) c.fail("the memory of " + std::string(what) + " grows faster than the content: " + of + ": " + std::to_string(a.peak) + " bytes, " + std::to_string(b.peak) + " when the content is " + std::to_string(static_cast<int>(factor)) + " times as large");
    c.tag(a.ok ? what : std::string(what) + " refused");
}
static void spec_case(Ctx& c, const std::vector<size_t>& which, uint32_t numbering, size_t n0, size_t n1) {
    const mini::Fmt f = c.free_of(mini::formats());
    std::string of = mini::name(f) + ", ";
    for (size_t k : which) of += std::string(kinds()[k].name) + (k == which.back() ? "" : " and ");
    of += ", numbering " + std::to_string(numbering) + ", " + std::to_string(n0) + " to " + std::to_string(n1);
    if (c.want_desc) c.describe(of);
    Cost save[2], load[2], valid[2];
    size_t expect = 1 << 16;
    for (int i = 0; i < 2; i++) {
        MshSpec s; s.mesh_format.version = f.version; s.mesh_format.file_type = f.type;
        for (size_t k : which) kinds()[k].add(s, {i ? n1 : n0, numbering});
        valid[i] = s.elements.num_elements || s.nodes.num_nodes ? run_validate(s) : Cost();
        save[i] = run_save(s, expect);
        c.check(save[i].ok, "save refused: " + of + ": " + save[i].error);
        expect = save[i].bytes.size() * 2 * (n1 / n0);
        load[i] = run_load(save[i].bytes);
        c.check(load[i].ok, "load refused: " + of + ": " + load[i].error);
    }
    c.state(save[1].bytes); c.nontrivial(fnv(save[1].bytes));
    const double factor = static_cast<double>(n1) / static_cast<double>(n0);
    judge(c, "saving", save[0], save[1], factor, of, save[0].bytes.size());
    judge(c, "loading", load[0], load[1], factor, of, save[0].bytes.size());
    if (valid[0].cost) judge(c, "validating", valid[0], valid[1], factor, of, save[0].bytes.size());
    c.traced();
}

// ---- files that no save writes: n of one thing
struct Growing { const char* name; std::function<std::string(size_t)> make; bool any = false; };  // any: in files of every format
static std::string times(size_t n, const std::string& s) { std::string r; r.reserve(n * s.size()); for (size_t i = 0; i < n; i++) r += s; return r; }
static std::string le(uint64_t v, size_t n) { std::string r; for (size_t i = 0; i < n; i++) r += static_cast<char>(v >> (8 * i)); return r; }
static const std::vector<Growing>& texts() {
    static const std::vector<Growing> t = {
        {"unknown sections", [](size_t n) { return times(n, "$Foo\n1 2\n$EndFoo\n"); }, true},
        {"unknown sections of different names", [](size_t n) { std::string r; for (size_t i = 0; i < n; i++) { const std::string k = "X" + std::to_string(i); r += "$" + k + "\n$End" + k + "\n"; } return r; }, true},
        {"words of an unknown section", [](size_t n) { return "$Foo\n" + times(n, "12 ") + "\n$EndFoo\n"; }, true},
        {"lines of an unknown section", [](size_t n) { return "$Foo\n" + times(n, "1 2\n") + "$EndFoo\n"; }, true},
        {"one word of an unknown section", [](size_t n) { return "$Foo\n" + std::string(8 * n, 'x') + "\n$EndFoo\n"; }, true},
        {"dollars of an unknown section", [](size_t n) { return "$Foo\n" + std::string(8 * n, '$') + "\n$EndFoo\n"; }, true},
        {"almost end markers", [](size_t n) { return "$Foo\n" + times(n, "$EndFo") + "\n$EndFoo\n"; }, true},
        {"almost end markers in words", [](size_t n) { return "$Foo\n" + times(n, "$EndFoox ") + "\n$EndFoo\n"; }, true},
        {"end markers of others", [](size_t n) { return "$Foo\n" + times(n, "$EndBar\n$Nodes\n") + "\n$EndFoo\n"; }, true},
        {"zero bytes of an unknown section", [](size_t n) { return "$Foo\n" + std::string(8 * n, '\0') + "\n$EndFoo\n"; }, true},
        {"the name of an unknown section", [](size_t n) { const std::string k(4 * n, 'N'); return "$" + k + "\n1\n$End" + k + "\n"; }, true},
        {"the name of an unknown section, periodic", [](size_t n) { const std::string k = times(n, "$End"); return "$" + k + "\n" + times(n, "$End") + "x\n$End" + k + "\n"; }, true},
        {"blank lines", [](size_t n) { return times(8 * n, "\n"); }, true},
        {"blanks", [](size_t n) { return times(8 * n, " ") + "\n"; }, true},
        {"words between sections", [](size_t n) { return times(n, "word ") + "\n"; }, true},
        {"one word between sections", [](size_t n) { return times(8 * n, "w") + "\n"; }, true},
        {"headers", [](size_t n) { return times(n, "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n"); }},
        {"physical names sections", [](size_t n) { return times(n, "$PhysicalNames\n1\n2 1 \"a\"\n$EndPhysicalNames\n"); }, true},
        {"entities sections", [](size_t n) { return times(n, "$Entities\n1 0 0 0\n1 0 0 0 0\n$EndEntities\n"); }},
        {"node sections", [](size_t n) { return times(n, "$Nodes\n1 1 1 1\n0 1 0 1\n1\n0 0 0\n$EndNodes\n"); }},
        {"element sections", [](size_t n) { return times(n, "$Elements\n1 1 1 1\n0 1 15 1\n1 1\n$EndElements\n"); }},
        {"empty node sections", [](size_t n) { return times(n, "$Nodes\n0 0 0 0\n$EndNodes\n"); }},
        {"data sections", [](size_t n) { return times(n, "$NodeData\n0\n0\n3\n0\n1\n0\n$EndNodeData\n"); }},
        {"digits of an integer", [](size_t n) { return "$Nodes\n1 1 1 1\n0 1 0 1\n" + times(8 * n, "0") + "1\n0 0 0\n$EndNodes\n"; }},
        {"digits of a real", [](size_t n) { return "$Nodes\n1 1 1 1\n0 1 0 1\n1\n0." + times(n, "12345") + " 0 0\n$EndNodes\n"; }},
        {"blanks before a number", [](size_t n) { return "$Nodes\n1 1 1 1\n0 1 0 1\n1\n" + times(8 * n, " ") + "0 0 0\n$EndNodes\n"; }},
        {"an end quote that is missing", [](size_t n) { return "$PhysicalNames\n1\n2 1 \"" + times(8 * n, "n") + "\n$EndPhysicalNames\n"; }, true},
        {"nodes that are missing", [](size_t n) { return "$Nodes\n1 " + std::to_string(n) + " 1 " + std::to_string(n) + "\n0 1 0 " + std::to_string(n) + "\n"; }},
        {"node blocks that are missing", [](size_t n) { return "$Nodes\n" + std::to_string(n) + " " + std::to_string(n) + " 1 " + std::to_string(n) + "\n"; }},
        {"elements that are missing", [](size_t n) { return "$Elements\n1 " + std::to_string(n) + " 1 " + std::to_string(n) + "\n2 1 2 " + std::to_string(n) + "\n"; }},
        {"data entries that are missing", [](size_t n) { return "$NodeData\n0\n0\n3\n0\n1\n" + std::to_string(n) + "\n"; }},
        {"string tags that are missing", [](size_t n) { return "$NodeData\n" + std::to_string(n) + "\n"; }},
        {"node blocks of no nodes", [](size_t n) { return "$Nodes\n" + std::to_string(n) + " 0 0 0\n" + times(n, "0 1 0 0\n") + "$EndNodes\n"; }},
        {"element blocks of no elements", [](size_t n) { return "$Elements\n" + std::to_string(n) + " 0 0 0\n" + times(n, "2 1 2 0\n") + "$EndElements\n"; }},
    };
    return t;
}
static const std::vector<Growing>& texts22() {
    static const std::vector<Growing> t = {
        {"tags of an element", [](size_t n) { return "$Nodes\n1\n1 0 0 0\n$EndNodes\n$Elements\n1\n1 15 " + std::to_string(n) + " " + times(n, "1 ") + "1\n$EndElements\n"; }},
        {"elements of five tags", [](size_t n) { std::string r = "$Elements\n" + std::to_string(n) + "\n"; for (size_t i = 0; i < n; i++) r += std::to_string(i + 1) + " 15 5 1 " + std::to_string(i % 5) + " 2 1 2 1\n"; return r + "$EndElements\n"; }},
        {"elements of different physical tags", [](size_t n) { std::string r = "$Elements\n" + std::to_string(n) + "\n"; for (size_t i = 0; i < n; i++) r += std::to_string(i + 1) + " 15 2 " + std::to_string(i + 1) + " 1 1\n"; return r + "$EndElements\n"; }},
        {"elements of different physical tags and entities", [](size_t n) { std::string r = "$Elements\n" + std::to_string(n) + "\n"; for (size_t i = 0; i < n; i++) r += std::to_string(i + 1) + " 15 2 " + std::to_string(n - i) + " " + std::to_string(i + 1) + " 1\n"; return r + "$EndElements\n"; }},
        {"elements without tags", [](size_t n) { std::string r = "$Elements\n" + std::to_string(n) + "\n"; for (size_t i = 0; i < n; i++) r += std::to_string(i + 1) + " 15 0 1\n"; return r + "$EndElements\n"; }},
        {"nodes in two entities in turn", [](size_t n) { std::string r = "$Nodes\n" + std::to_string(n) + "\n"; for (size_t i = 0; i < n; i++) r += std::to_string(i + 1) + " 0 0 0\n"; r += "$EndNodes\n$Elements\n" + std::to_string(n) + "\n"; for (size_t i = 0; i < n; i++) r += std::to_string(i + 1) + " 15 2 1 " + std::to_string(1 + i % 2) + " " + std::to_string(i + 1) + "\n"; return r + "$EndElements\n"; }},
        {"sparse nodes", [](size_t n) { std::string r = "$Nodes\n" + std::to_string(n) + "\n"; for (size_t i = 0; i < n; i++) r += std::to_string(1 + i * i * 97) + " 0 0 0\n"; return r + "$EndNodes\n"; }},
        {"node sections", [](size_t n) { return times(n, "$Nodes\n1\n1 0 0 0\n$EndNodes\n"); }},
        {"element sections", [](size_t n) { return times(n, "$Elements\n1\n1 15 2 1 1 1\n$EndElements\n"); }},
        {"nodes that are missing", [](size_t n) { return "$Nodes\n" + std::to_string(n) + "\n"; }},
        {"elements that are missing", [](size_t n) { return "$Elements\n" + std::to_string(n) + "\n"; }},
        {"tags that are missing", [](size_t n) { return "$Elements\n1\n1 15 " + std::to_string(n) + "\n"; }},
    };
    return t;
}
static const std::vector<Growing>& binary22() {
    static const std::vector<Growing> t = {
        {"records of one element", [](size_t n) { std::string r = "$Elements\n" + std::to_string(n) + "\n"; for (size_t i = 0; i < n; i++) r += le(15, 4) + le(1, 4) + le(2, 4) + le(i + 1, 4) + le(1, 4) + le(i % 3, 4) + le(1, 4); return r + "\n$EndElements\n"; }},
        {"records of one element, one entity", [](size_t n) { std::string r = "$Elements\n" + std::to_string(n) + "\n"; for (size_t i = 0; i < n; i++) r += le(15, 4) + le(1, 4) + le(2, 4) + le(i + 1, 4) + le(1, 4) + le(1, 4) + le(1, 4); return r + "\n$EndElements\n"; }},
        {"one record, entities in turn", [](size_t n) { std::string r = "$Elements\n" + std::to_string(n) + "\n" + le(15, 4) + le(n, 4) + le(2, 4); for (size_t i = 0; i < n; i++) r += le(i + 1, 4) + le(1, 4) + le(i + 1, 4) + le(1, 4); return r + "\n$EndElements\n"; }},
        {"tags of an element", [](size_t n) { std::string r = "$Elements\n1\n" + le(15, 4) + le(1, 4) + le(n, 4) + le(1, 4); for (size_t i = 0; i < n; i++) r += le(1, 4); return r + le(1, 4) + "\n$EndElements\n"; }},
        {"empty records", [](size_t n) { std::string r = "$Elements\n1\n"; for (size_t i = 0; i < n; i++) r += le(15, 4) + le(0, 4) + le(2, 4); return r + le(15, 4) + le(1, 4) + le(0, 4) + le(1, 4) + le(1, 4) + "\n$EndElements\n"; }},
    };
    return t;
}
static void text_case(Ctx& c, const std::string& head, const std::vector<const Growing*>& which, uint32_t cut, size_t n0, size_t n1) {
    std::string of = head.substr(12, 5) + " file, ";
    for (auto* t : which) of += std::string(t->name) + (t == which.back() ? "" : " and ");
    of += cut == 0 ? "" : cut == 1 ? ", cut in the middle" : ", damaged at the end";
    of += ", " + std::to_string(n0) + " to " + std::to_string(n1);
    if (c.want_desc) c.describe(of);
    Cost r[2]; std::string bytes; size_t size0 = 0;
    for (int i = 0; i < 2; i++) {
        bytes = head;
        for (auto* t : which) bytes += t->make(i ? n1 : n0);
        if (cut == 1) bytes.resize(bytes.size() / 2);
        if (cut == 2) bytes.resize(bytes.size() - 3);
        if (!i) size0 = bytes.size() + n0;
        r[i] = run_load(bytes);
    }
    c.state(bytes); c.nontrivial(fnv(bytes));
    judge(c, "loading", r[0], r[1], static_cast<double>(n1) / static_cast<double>(n0), of, size0);
}

int main(int argc, char** argv) {
    Quiet quiet;
    sysio::Scratch scratch;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    const size_t n0 = 256, n1 = th ? 32768 : 8192;
    // every kind alone, in four numberings
    e.add({"single", [=](Ctx& c) { const size_t k = c.free_choose(static_cast<uint32_t>(kinds().size())); const uint32_t z = c.free_choose(5); spec_case(c, {k}, z, n0, th ? 131072 : 32768); }, 0, 120});
    // every pair of kinds, both large
    e.add({"pairs", [=](Ctx& c) {
        const size_t a = c.free_choose(static_cast<uint32_t>(kinds().size())), b = c.free_choose(static_cast<uint32_t>(kinds().size()));
        if (a == b) throw Skip{};
        spec_case(c, {a, b}, th ? c.free_choose(4) : (a < b ? 0 : 3), 64, th ? 8192 : 4096);
    }, 0, 120});
    // every triple of the kinds that refer to each other
    e.add({"triples", [=](Ctx& c) {
        const uint32_t n = th ? static_cast<uint32_t>(kinds().size()) : 20;
        const size_t a = c.free_choose(n), b = c.free_choose(n), d = c.free_choose(n);
        if (a >= b || b >= d) throw Skip{};
        spec_case(c, {a, b, d}, 3, 64, 2048);
    }, 0, 120});
    e.add({"files", [=](Ctx& c) {
        const uint32_t w = c.free_choose(4);
        const std::string head = w == 0 ? "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n" : w == 1 ? "$MeshFormat\n4.1 1 8\n" + le(1, 4) + "\n$EndMeshFormat\n" : w == 2 ? "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n" : "$MeshFormat\n2.2 1 8\n" + le(1, 4) + "\n$EndMeshFormat\n";
        std::vector<const Growing*> all;
        for (auto& t : texts()) if (w == 0 || t.any) all.push_back(&t);
        if (w == 2) for (auto& t : texts22()) all.push_back(&t);
        if (w == 3) for (auto& t : binary22()) all.push_back(&t);
        const Growing* a = c.free_of(all);
        const uint32_t k = c.free_choose(static_cast<uint32_t>(all.size()) + 1);
        const uint32_t cut = c.free_choose(3);
        std::vector<const Growing*> which = {a};
        if (k) { if (cut || all[k - 1] == a || strstr(a->name, "missing")) throw Skip{}; which.push_back(all[k - 1]); }
        text_case(c, head, which, cut, n0, k && !th ? 2048 : n1);
    }, 0, 120});
    // the same call again and again: nothing but its result may stay allocated, and it may not become slower
    e.add({"again", [&](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const size_t k = c.free_choose(static_cast<uint32_t>(kinds().size()));
        MshSpec s; s.mesh_format.version = f.version; s.mesh_format.file_type = f.type;
        kinds()[k].add(s, {8, 0});
        const bool more = c.free_flag();
        if (more) { MshSpec t; add_node_block(t, {8, 0}, 0, 8, 1, 0); add_element_block(t, {8, 0}, 0, 8, 1); if (!s.nodes.num_nodes) s.nodes = t.nodes; if (!s.elements.num_elements) s.elements = t.elements; }
        std::string bytes = save_bytes(s).bytes;
        if (more) bytes += "$Foo\n1 2\n$EndFoo\n";
        enum { Load, Cut, Damage, Save, Full, Type, Version, Validate, Invalid, LoadName, SaveName, NoName, Count };
        const uint32_t what = c.free_choose(Count);
        static const char* names[] = {"load", "load cut", "load damaged", "save", "save to a full stream", "save an unknown type", "save an unknown version", "validate", "validate something inconsistent", "load by name", "save by name", "load a missing file"};
        size_t at = 0;
        if (more && !th && (what == Cut || what == Full || what == Damage)) throw Skip{};
        if (what == Cut || what == Full) at = c.free_choose(static_cast<uint32_t>(bytes.size()));
        if (what == Damage) at = c.free_choose(static_cast<uint32_t>(bytes.size()));
        std::string in = bytes;
        if (what == Cut) in.resize(at);
        if (what == Damage) in[at] = static_cast<char>(in[at] ^ 0x15);
        if (what == Type) { if (!s.elements.num_elements) throw Skip{}; s.elements.entity_blocks.back().element_type = 9999; }
        if (what == Version) s.mesh_format.version = "3.0";
        if (what == Invalid) s.nodes.num_entity_blocks++;
        if ((what == Validate || what == Invalid) && (s.elements.entity_blocks.empty() && s.nodes.entity_blocks.empty())) throw Skip{};
        const std::string path = scratch.file();
        if (what == LoadName) std::ofstream(path, std::ios::binary) << bytes;
        const std::string of = std::string(names[what]) + ", " + mini::name(f) + ", " + kinds()[k].name + (what == Cut || what == Full || what == Damage ? ", byte " + std::to_string(at) : "");
        if (c.want_desc) c.describe(of);
        struct Short : std::streambuf { size_t left; explicit Short(size_t n) : left(n) {} int_type overflow(int_type x) override { if (!left) return traits_type::eof(); left--; return traits_type::not_eof(x); } };
        bool ok = false;
        auto call = [&] {
            ok = false;
            try {
                if (what == Load || what == Cut || what == Damage) { InBuf b(in); std::istream i(&b); load_msh(i); }
                else if (what == Save || what == Type || what == Version) { sp::NullBuf b; std::ostream o(&b); save_msh(o, s); }
                else if (what == Full) { Short b(at); std::ostream o(&b); save_msh(o, s); }
                else if (what == Validate || what == Invalid) validate_spec(s);
                else if (what == LoadName) load_msh(path);
                else if (what == SaveName) save_msh(path, s);
                else load_msh(scratch.dir + "/none");
                ok = true;
            } catch (const std::exception&) {}
        };
        auto rounds = [&](int n) { uint64_t last = 0; for (int i = 0; i < n; i++) { cost::start(); call(); last = cost::stop().total(); } return last; };
        auto used = [] { return static_cast<uint64_t>(mallinfo2().uordblks + mallinfo2().hblkhd); };
        most = 1u << 20;
        const uint64_t c0 = rounds(4), m0 = used(), c1 = rounds(8); uint64_t m1 = used();
        bool grows = m1 >= m0 + 8 * 8 || c1 > 2 * c0 + 2000;
        uint64_t c2 = c1, m2 = m1;
        if (grows) { rounds(16); m1 = used(); c2 = rounds(48); m2 = used(); grows = m2 >= m1 + 48 * 8 || c2 > c1 + c0; }  // growth that goes on
        most = 1u << 28;
        c.step(12); c.evaluated();
        if (grows) c.fail("repeating a call " + of + ": memory in use " + std::to_string(m0) + ", " + std::to_string(m1) + ", " + std::to_string(m2) + " bytes after 4, 12 (28) and 76 calls; steps of the last call " + std::to_string(c0) + ", " + std::to_string(c1) + ", " + std::to_string(c2));
        c.state(of); c.nontrivial(fnv(of)); c.traced(); c.tag(std::string(names[what]) + (ok ? "" : " refused"));
    }, 0, 60});
    return e.run();
}
