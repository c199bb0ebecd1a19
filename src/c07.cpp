// C07: any bytes: the loader returns a consistent specification or throws; no memory error, no
// dependence on uninitialised data, no unbounded work.
#define ALLOC_COUNT
#define ALLOC_FILL
#include "alloc_count.h"
#include "gen.h"
#include "mini.h"
#include <dlfcn.h>
using namespace mc; using namespace sp; using namespace gen;
#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool EXT = true;
#else
constexpr bool EXT = false;
#endif

using Outcome = size_t (*)(const char*, size_t, char*, size_t);
static std::vector<Outcome> others;
static std::string buf(1 << 20, 0);

static std::string outcome(Outcome f, const std::string& b) {
    alloc::Cap cap(4u << 20);
    const size_t n = f(b.data(), b.size(), &buf[0], buf.size());
    return buf.substr(0, std::min(n, buf.size()));
}

// The oracle.
static void probe(Ctx& c, const std::string& bytes) {
    c.state(bytes);
    if (c.want_desc) c.describe("input (" + std::to_string(bytes.size()) + " bytes):\n" + hexdump(bytes, 4000));
    Loaded l;
    { alloc::Cap cap(4u << 20); std::istringstream in(bytes, std::ios::binary | std::ios::in); l = load(in); }
    c.step();
    if (l.ok) { const std::string s = structure(l.spec); c.check(s.empty(), s); }
    c.tag(l.kind);
    std::string first;
    for (size_t k = 0; k < others.size(); k++) {
        alloc::fill = k ? 0xa5 : 0;
        std::string o = outcome(others[k], bytes);
        c.step();
        if (!k) first = o;
        else c.check(first == o, "the outcome depends on uninitialised data: " + first.substr(0, first.find('\n')) + " or " + o.substr(0, o.find('\n')));
    }
    alloc::fill = -1;
    if (!first.empty()) c.check(first.substr(0, first.find('\n')) == l.kind, "the outcome depends on the build: " + l.kind + " or " + first.substr(0, 80));
}

static const std::vector<std::string>& text_menu() {
    static const std::vector<std::string> m = {"0", "1", "2", "3", "-1", "x", "", "5", "15", "32", "1000", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967297", "2305843009213693952", "4611686018427387904", "4611686018427387905",
        "6148914691236517206", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "0.5", "1e3", "nan", "-", "0x10", "\"", "\"a", "\"a b\"", "$EndNodes", "$Nodes", "$", "\n", "\xff"};
    return m;
}
static const std::vector<std::string>& marker_menu() {
    static const std::vector<std::string> m = {"", "$", "$X", "$EndX", "$End", "$MeshFormat", "$EndMeshFormat", "$Nodes", "$EndNodes", "$Elements", "$EndElements", "$Entities", "$PhysicalNames", "$NodeData", "$EndNodeData", "$ElementNodeData", "$Curves", "$Patches", "x", "1"};
    return m;
}
static const std::vector<int64_t>& menu32() {
    static const std::vector<int64_t> m = {0, 1, 2, 3, -1, 5, 15, 32, 256, 65536, 2147483647, -2147483647 - 1, 0x0a0a0a0a, 0x24242424};
    return m;
}
static const std::vector<uint64_t>& menu64() {
    static const std::vector<uint64_t> m = {0, 1, 2, 3, 18446744073709551615ull, 5, 1000, 65536, 4294967295ull, 4294967296ull, 1ull << 59, 1ull << 60, 1ull << 61, (1ull << 61) + 1, 1ull << 62, 1ull << 63, (1ull << 63) - 1, 6148914691236517206ull, 2635249153387078803ull, 0x0a0a0a0a0a0a0a0aull};
    return m;
}

// A valid file whose fields may be replaced, dropped, doubled or cut.
static std::string mutate(Ctx& c, const mini::Encoded& e, size_t text_max = 99, size_t bin_max = 99) {
    std::string o;
    size_t p = 0;
    for (auto& m : e.marks) {
        o += e.bytes.substr(p, m.pos - p);
        const std::string f = e.bytes.substr(m.pos, m.len);
        p = m.pos + m.len;
        uint32_t n = 4;
        const auto& tm = m.kind == 'm' ? marker_menu() : text_menu();
        const size_t k = m.kind == 'b' ? std::min(bin_max, m.len == 4 ? menu32().size() : menu64().size()) : std::min(text_max, tm.size());
        n += static_cast<uint32_t>(k);
        const uint32_t w = c.choose(n);
        if (w == 0) o += f;
        else if (w == 1) return o;
        else if (w == 2) {}
        else if (w == 3) o += f + (m.kind == 'b' ? "" : " ") + f;
        else if (m.kind != 'b') o += tm[w - 4];
        else if (m.len == 4) { const int32_t v = static_cast<int32_t>(menu32()[w - 4]); o.append(reinterpret_cast<const char*>(&v), 4); }
        else { const uint64_t v = menu64()[w - 4]; o.append(reinterpret_cast<const char*>(&v), 8); }
    }
    return o + e.bytes.substr(p);
}

static const mini::Encoded& guide(int f, const std::string& section, int rich) {
    static std::map<std::string, mini::Encoded> cache;
    auto& e = cache[section + std::to_string(f * 2 + rich)];
    if (e.bytes.empty()) e = mini::encode(mini::only(mini::fixed(mini::formats()[static_cast<size_t>(f)], rich, EXT), section), EXT);
    return e;
}

// Answers every request of the loader with a choice: a token when it asks for a character, a number of
// the width it asks for otherwise.
struct Demand : std::streambuf {
    Ctx& c;
    std::string pending, all, section;
    size_t pos = 0;
    int left;
    Demand(Ctx& ctx, std::string head, std::string sec, int horizon) : c(ctx), pending(std::move(head)), section(std::move(sec)), left(horizon) { all = pending; }
    bool more(const std::string& s) { pending.erase(0, pos); pos = 0; pending += s; all += s; return pos < pending.size(); }
    bool fill_text() {
        if (pos < pending.size()) return true;
        if (left-- <= 0) return false;
        static const std::vector<std::string> menu = {"", "1\n", "0\n", "2\n", "-1\n", "4294967297\n", "\"a\"\n", "3.5\n"};
        const uint32_t k = c.free_choose(static_cast<uint32_t>(menu.size()) + 1);
        if (k == menu.size()) return more("$End" + section + "\n");
        return more(menu[k]);
    }
    int_type underflow() override { return fill_text() ? traits_type::to_int_type(pending[pos]) : traits_type::eof(); }
    int_type uflow() override { return fill_text() ? traits_type::to_int_type(pending[pos++]) : traits_type::eof(); }
    std::streamsize xsgetn(char* s, std::streamsize n) override {
        const size_t want = static_cast<size_t>(n);
        if (pos >= pending.size() && want > 1) {
            if (left-- <= 0) return 0;
            std::string b;
            if (want == 4) { static const std::vector<int32_t> m = {0, 1, 2, -1, 15, 2147483647}; const uint32_t k = c.free_choose(7); if (k < 6) b.assign(reinterpret_cast<const char*>(&m[k]), 4); else b = "ab"; }
            else if (want == 8) { static const std::vector<uint64_t> m = {0, 1, 2, 18446744073709551615ull, 1ull << 61, 6148914691236517206ull}; const uint32_t k = c.free_choose(7); if (k < 6) b.assign(reinterpret_cast<const char*>(&m[k]), 8); else b = "abcd"; }
            else if (want < 4096) { if (c.free_flag()) b.assign(want - 1, 1); else b.assign(want, 1); }
            more(b);
        }
        const size_t k = std::min(want, pending.size() - pos);
        if (k) memcpy(s, pending.data() + pos, k);
        pos += k;
        return static_cast<std::streamsize>(k);
    }
};

int main(int argc, char** argv) {
    Quiet quiet;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    const std::string dir = getenv("MSHIO_BUILD") ? getenv("MSHIO_BUILD") : ".";
    for (const char* n : {"load-zero", "load-pattern"}) {
        void* h = dlopen((dir + "/" + n + (EXT ? "-on.so" : "-off.so")).c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { std::cerr << dlerror() << "\n"; return 2; }
        others.push_back(reinterpret_cast<Outcome>(dlsym(h, "mshio_outcome")));
    }
    // every pair of damaged fields in a file with one small section
    e.add({"fields", [](Ctx& c) {
        const int f = static_cast<int>(c.free_choose(4));
        const std::string& s = c.free_of(mini::sections(EXT));
        probe(c, mutate(c, guide(f, s, 0), c.thorough ? 99 : 6, c.thorough ? 99 : 5));
    }, 2, 20});
    // every damaged field, whole alphabet, rich sections
    e.add({"rich-fields", [](Ctx& c) {
        const int f = static_cast<int>(c.free_choose(4));
        const std::string& s = c.free_of(mini::sections(EXT));
        probe(c, mutate(c, guide(f, s, 1)));
    }, 1, 20});
    // every byte of small files takes every value; every byte dropped or doubled
    e.add({"bytes", [](Ctx& c) {
        const int f = static_cast<int>(c.free_choose(4));
        std::string b = guide(f, c.free_of(mini::sections(EXT)), 0).bytes;
        const uint32_t at = c.free_choose(static_cast<uint32_t>(b.size()));
        const uint32_t v = c.free_choose(258);
        if (v < 256) b[at] = static_cast<char>(v); else if (v == 256) b.erase(at, 1); else b.insert(at, 1, b[at]);
        probe(c, b);
    }, 0, 20});
    // everything the loader can ask for, answered in every way
    e.add({"demand", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const std::string s = c.free_of(mini::sections(EXT));
        if (s == "Both" || s == "MeshFormat") throw Skip{};
        std::string head = std::string("$MeshFormat\n") + f.version + " " + std::to_string(f.type) + " 8\n";
        if (f.type) head += std::string("\1\0\0\0\n", 5);
        head += "$EndMeshFormat\n$" + s + "\n";
        Demand d(c, head, s, c.thorough ? 7 : 5);
        { std::istream in(&d); alloc::Cap cap(4u << 20); (void)load(in); c.step(); }
        probe(c, d.all);
    }, 0, 20});
    // every short token sequence after the header and a section marker
    e.add({"tokens", [](Ctx& c) {
        static const std::vector<std::string> heads = {"", "$MeshFormat", "$MeshFormat 4.1 0 8 $EndMeshFormat", "$MeshFormat 2.2 0 8 $EndMeshFormat", std::string("$MeshFormat 4.1 1 8\n\1\0\0", 23) + std::string(1, 0) + "$EndMeshFormat", std::string("$MeshFormat 2.2 1 8\n\1\0\0", 23) + std::string(1, 0) + "$EndMeshFormat"};
        std::string s = c.free_of(heads);
        if (c.free_flag()) { s += "\n$"; s += c.free_of(mini::sections(EXT)); }
        static const std::vector<std::string> menu = {"", "1", "0", "2", "-1", "x", "1e9", "\"a\"", "$X", "$EndX", "$Nodes", "$EndNodes", "$MeshFormat", "$EndMeshFormat", "4.1", "8", "18446744073709551615"};
        const int n = c.thorough ? 5 : 3;
        for (int i = 0; i < n; i++) { const std::string& t = c.free_of(menu); if (t.empty()) break; s += "\n"; s += t; }
        if (c.free_flag()) s += "\n";
        probe(c, s);
    }, 0, 20});
    // all short files over the characters that matter
    e.add({"characters", [](Ctx& c) {
        const std::string alpha = std::string("$\n 1\"Ex-.\\\r") + '\0' + '\xff';
        std::string s;
        const int n = c.thorough ? 6 : 5;
        for (int i = 0; i < n; i++) { const uint32_t k = c.free_choose(static_cast<uint32_t>(alpha.size()) + 1); if (!k) break; s += alpha[k - 1]; }
        probe(c, s);
    }, 0, 20});
    // two damaged files one after the other in one file, sections repeated, in any order
    e.add({"repeats", [](Ctx& c) {
        const int f = static_cast<int>(c.free_choose(4));
        const mini::Encoded& h = guide(f, "MeshFormat", 0);
        std::string b;
        for (int i = 0; i < 4; i++) {
            const uint32_t k = c.free_choose(static_cast<uint32_t>(mini::sections(EXT).size()) + 1);
            if (!k) break;
            const std::string& x = guide(f, mini::sections(EXT)[k - 1], 0).bytes;
            b += k == 1 || !i ? x : x.substr(h.bytes.size());
        }
        probe(c, b);
    }, 0, 20});
    // memory in proportion to the file: every list of the format at every length
    e.add({"cost", [](Ctx& c) {
        gen::Opt o; o.version = c.free_flag() ? "2.2" : "4.1"; o.file_type = static_cast<int>(c.free_choose(2)); o.max_tag = 2147483647; o.tight = true;
        o = gen::sweep_opt(c, o, EXT);
        if (o.length > (c.thorough ? 70000 : 4097)) throw Skip{};
        const std::string b = save_bytes(gen::Gen(c, o).spec()).bytes;
        c.state(b);
        if (c.want_desc) c.describe(o.target + " of length " + std::to_string(o.length) + ": " + std::to_string(b.size()) + " bytes");
        std::istringstream in(b, std::ios::binary | std::ios::in);
        alloc::reset();
        const Loaded l = load(in);
        const uint64_t cost = alloc::total;
        c.step();
        c.check(l.ok, "a valid file is refused: " + l.error);
        c.check(cost <= 200 * b.size() + 65536, "loading " + std::to_string(b.size()) + " bytes allocates " + std::to_string(cost) + " bytes (" + o.target + " of length " + std::to_string(o.length) + ")");
        c.tag("cost measured");
    }, 0, 60});
    (void)th;
    return run_main(e);
}
