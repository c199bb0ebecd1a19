// C14: files do not depend on locale or stream formatting state; the caller's stream keeps its own.
#define ALLOC_COUNT
#include "alloc_count.h"
#include "sysio.h"
#include "mini.h"
#include <clocale>
#include <iomanip>
#include <sys/stat.h>
using namespace mc; using namespace sp; using namespace gen;
#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool EXT = true;
#else
constexpr bool EXT = false;
#endif

// ---- locales
struct Punct : std::numpunct<char> {
    char dot, sep; std::string grp;
    Punct(char d, char s, std::string g) : dot(d), sep(s), grp(std::move(g)) {}
    char do_decimal_point() const override { return dot; }
    char do_thousands_sep() const override { return sep; }
    std::string do_grouping() const override { return grp; }
};
struct Put : std::num_put<char> {  // writes numbers in a way of its own
    iter_type do_put(iter_type o, std::ios_base&, char_type, long) const override { return word(o); }
    iter_type do_put(iter_type o, std::ios_base&, char_type, unsigned long) const override { return word(o); }
    iter_type do_put(iter_type o, std::ios_base&, char_type, double) const override { return word(o); }
    static iter_type word(iter_type o) { for (char c : {'n', 'u', 'm'}) *o++ = c; return o; }
};
struct Get : std::num_get<char> {  // reads every number as 1
    template <class T> static iter_type one(iter_type a, iter_type b, T& v) { while (a != b && *a != ' ' && *a != '\n') ++a; v = 1; return a; }
    iter_type do_get(iter_type a, iter_type b, std::ios_base&, std::ios_base::iostate&, long& v) const override { return one(a, b, v); }
    iter_type do_get(iter_type a, iter_type b, std::ios_base&, std::ios_base::iostate&, unsigned long& v) const override { return one(a, b, v); }
    iter_type do_get(iter_type a, iter_type b, std::ios_base&, std::ios_base::iostate&, double& v) const override { return one(a, b, v); }
};
struct Blanks : std::ctype<char> {  // other characters are blanks
    static const mask* table(const char* blanks) {
        static std::map<std::string, std::vector<mask>> all;
        auto& t = all[blanks];
        if (t.empty()) { t.assign(classic_table(), classic_table() + table_size); for (const char* p = blanks; *p; p++) t[static_cast<unsigned char>(*p)] = space; if (!*blanks) for (char c : {' ', '\n', '\t'}) t[static_cast<unsigned char>(c)] = punct; }
        return t.data();
    }
    explicit Blanks(const char* blanks) : std::ctype<char>(table(blanks)) {}
};
static std::vector<std::pair<std::string, std::locale>> locales;
static void make_locales(const sysio::Scratch& scratch) {
    const std::locale k = std::locale::classic();
    locales.push_back({"classic", k});
    locales.push_back({"comma and grouping", std::locale(k, new Punct(',', '.', "\3"))});
    locales.push_back({"grouping of one", std::locale(k, new Punct('.', ' ', "\1"))});
    locales.push_back({"minus as point", std::locale(k, new Punct('-', 'e', "\2"))});
    locales.push_back({"own output", std::locale(k, new Put)});
    locales.push_back({"own input", std::locale(k, new Get)});
    locales.push_back({"digits are blanks", std::locale(k, new Blanks("0$,"))});
    locales.push_back({"no blanks", std::locale(k, new Blanks(""))});
    // locales of the system, compiled into the scratch directory
    setenv("LOCPATH", scratch.dir.c_str(), 1);
    for (const char* n : {"de_DE", "ps_AF", "hi_IN"}) {
        const std::string name = std::string(n) + ".UTF-8", cmd = "localedef -i " + std::string(n) + " -f UTF-8 '" + scratch.dir + "/" + name + "' >/dev/null 2>&1";
        if (system(cmd.c_str())) {}
        try { locales.push_back({name, std::locale(name.c_str())}); } catch (const std::exception&) {}
    }
}
struct Global {  // the global locale (and with a named one, the C library's)
    std::locale old = std::locale();
    explicit Global(const std::locale& l) { std::locale::global(l); }
    ~Global() { std::locale::global(old); setlocale(LC_ALL, "C"); }
};

// ---- formatting state
using F = std::ios_base::fmtflags;
struct State { F flags = std::ios::dec | std::ios::skipws; std::streamsize precision = 6, width = 0; char fill = ' '; size_t loc = 0, global = 0; std::string log; };
static State choose_state(Ctx& c) {
    State s;
    auto note = [&](const std::string& n) { s.log += n + "; "; };
    const F bases[] = {std::ios::dec, std::ios::hex, std::ios::oct, F{}, std::ios::hex | std::ios::oct};
    const F floats[] = {F{}, std::ios::fixed, std::ios::scientific, std::ios::fixed | std::ios::scientific};
    const F adjusts[] = {F{}, std::ios::left, std::ios::right, std::ios::internal};
    uint32_t k = c.choose(5); s.flags = (s.flags & ~std::ios::basefield) | bases[k]; if (k) note("base " + std::to_string(k));
    k = c.choose(4); s.flags |= floats[k]; if (k) note("float format " + std::to_string(k));
    k = c.choose(4); s.flags |= adjusts[k]; if (k) note("adjustment " + std::to_string(k));
    const std::pair<F, const char*> bits[] = {{std::ios::showbase, "showbase"}, {std::ios::showpoint, "showpoint"}, {std::ios::showpos, "showpos"}, {std::ios::uppercase, "uppercase"}, {std::ios::boolalpha, "boolalpha"}, {std::ios::unitbuf, "unitbuf"}};
    for (auto& b : bits) if (c.flag()) { s.flags |= b.first; note(b.second); }
    if (c.flag()) { s.flags &= ~std::ios::skipws; note("noskipws"); }
    const std::streamsize ps[] = {6, 0, 1, 3, 17, 40, -1};
    k = c.choose(7); s.precision = ps[k]; if (k) note("precision " + std::to_string(s.precision));
    const std::streamsize ws[] = {0, 1, 5, 30, 2000};
    k = c.choose(5); s.width = ws[k]; if (k) note("width " + std::to_string(s.width));
    const char fs[] = {' ', '0', '*', '\n'};
    k = c.choose(4); s.fill = fs[k]; if (k) note("fill " + std::to_string(static_cast<int>(s.fill)));
    s.loc = c.choose(static_cast<uint32_t>(locales.size())); if (s.loc) note("stream locale " + locales[s.loc].first);
    s.global = c.choose(static_cast<uint32_t>(locales.size())); if (s.global) note("global locale " + locales[s.global].first);
    return s;
}
static void dress(std::ios& x, const State& s) { x.imbue(locales[s.loc].second); x.flags(s.flags); x.precision(s.precision); x.width(s.width); x.fill(s.fill); }
static std::string changed(std::ios& x, const State& s, std::streambuf* buf, std::ios_base::iostate ex) {
    if (x.flags() != s.flags) return "format flags";
    if (x.precision() != s.precision) return "precision";
    if (x.width() != s.width) return "width";
    if (x.fill() != s.fill) return "fill character";
    if (x.getloc() != locales[s.loc].second) return "locale";
    if (x.rdbuf() != buf) return "buffer";
    if (x.exceptions() != ex) return "exception mask";
    return "";
}
struct FailAt : std::streambuf {
    size_t left; bool throws;
    FailAt(size_t n, bool t) : left(n), throws(t) {}
    int_type overflow(int_type ch) override { if (left == 0) { if (throws) throw std::runtime_error("full"); return traits_type::eof(); } left--; return traits_type::eq_int_type(ch, traits_type::eof()) ? 0 : ch; }
};

// ---- contents, with the bytes and specification of the plain state
struct Case { std::string name; MshSpec spec; std::string bytes; Loaded loaded; };
static const std::vector<Case>& cases() {
    static std::vector<Case> v;
    if (!v.empty()) return v;
    for (int rich = 0; rich < 2; rich++) for (auto& f : mini::formats()) {
        Case k; k.name = mini::name(f); k.spec = mini::fixed(f, rich, EXT);
        auto d = [&](double& x, double y) { x = y; };
        auto& b = k.spec.nodes.entity_blocks[0];
        d(b.data[0], 1234567.890625); d(b.data[1], -1e-300); d(b.data[2], 1e22); if (b.data.size() > 3) d(b.data[3], 0.1);
        b.tags[0] = 1234567; k.spec.nodes.max_node_tag = std::max<size_t>(k.spec.nodes.max_node_tag, 1234567);
        for (auto& e : k.spec.elements.entity_blocks) if (!e.data.empty()) e.data[1] = 1234567;
        k.spec.node_data[0].header.real_tags[0] = 1234567.25;
        if (!k.spec.node_data[0].entries.empty() && !k.spec.node_data[0].entries[0].data.empty()) k.spec.node_data[0].entries[0].data[0] = 9876543.25;
        k.spec.node_data[0].header.int_tags[0] = 1000000;
        k.spec.physical_groups[0].tag = 1000000;
        k.spec.physical_groups[0].name = "a b,c.d 1.000";
        if (EXT && !k.spec.curves.empty() && !k.spec.curves[0].data.empty()) { k.spec.curves[0].data[0] = 12345.678; k.spec.curves[0].curve_tag = 7654321; }
        k.bytes = save_bytes(k.spec).bytes;
        k.loaded = load_bytes(k.bytes);
        v.push_back(k);
    }
    return v;
}
// Text spelled as a locale or base might read differently.
struct Spelled : ref::Style {
    std::string u(uint64_t v) override { return "0" + std::to_string(v); }
    std::string i(int64_t v) override { return v < 0 ? std::to_string(v) : "+" + std::to_string(v); }
    std::string d(double v) override { char t[64]; snprintf(t, sizeof t, "%+.17E", v); return t; }
};
static void result(Ctx& c, const std::string& what, const State& s, size_t k) {
    c.step(); c.evaluated();
    const uint64_t h = fnv(what + s.log, k);
    c.state(h); if (!s.log.empty()) c.nontrivial(h);
}
static void save_in(Ctx& c, size_t k, const State& s) {
    const Case& q = cases()[k];
    if (c.want_desc) c.describe("save of " + q.name + " with " + s.log);
    std::ostringstream out(std::ios::binary | std::ios::out);
    std::string err;
    {
        Global g(locales[s.global].second);
        dress(out, s);
        try { save_msh(out, q.spec); } catch (const std::exception& e) { err = e.what(); }
        result(c, "save", s, k);
        const std::string ch = changed(out, s, out.rdbuf(), std::ios::goodbit);
        c.check(ch.empty(), "saving changed the " + ch + " of the stream (" + s.log + ")");
    }
    c.check(err.empty() && out.good(), "saving fails with " + s.log + ": " + err);
    const std::string b = out.str();
    if (b != q.bytes) {
        size_t p = 0; while (p < b.size() && p < q.bytes.size() && b[p] == q.bytes[p]) p++;
        const size_t from = p > 30 ? p - 30 : 0;
        c.fail("other bytes with " + s.log + ": at " + std::to_string(p) + " expected \"" + hexdump(q.bytes.substr(from, 60)) + "\" got \"" + hexdump(b.substr(from, 60)) + "\"");
    }
    c.traced(); c.tag("saved");
}
static void load_in(Ctx& c, size_t k, const State& s, const std::string& bytes, const Loaded& want) {
    if (c.want_desc) c.describe("load of " + cases()[k].name + " with " + s.log);
    std::istringstream in(bytes, std::ios::binary | std::ios::in);
    Loaded l;
    {
        Global g(locales[s.global].second);
        dress(in, s);
        { alloc::Cap cap(16u << 20); l = load(in); }
        result(c, bytes, s, k);
        const std::string ch = changed(in, s, in.rdbuf(), std::ios::goodbit);
        c.check(ch.empty(), "loading changed the " + ch + " of the stream (" + s.log + ")");
    }
    c.check(l.ok == want.ok, "loading " + std::string(l.ok ? "succeeds" : "fails (" + l.error + ")") + " with " + s.log);
    if (l.ok) { const std::string d = diff(want.spec, l.spec); c.check(d.empty(), "other content with " + s.log + ": " + d); }
    c.traced(); c.tag(l.ok ? "loaded" : "refused");
}

int main(int argc, char** argv) {
    Quiet quiet;
    sysio::Scratch scratch;
    make_locales(scratch);
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    auto pick = [](Ctx& c) { return static_cast<size_t>(c.free_choose(static_cast<uint32_t>(cases().size()))); };
    e.add({"save", [=](Ctx& c) { const size_t k = pick(c); save_in(c, k, choose_state(c)); }, th ? 4 : 3});
    e.add({"load", [=](Ctx& c) { const size_t k = pick(c); load_in(c, k, choose_state(c), cases()[k].bytes, cases()[k].loaded); }, th ? 4 : 3});
    // other spellings of the numbers
    e.add({"spelled", [=](Ctx& c) {
        const size_t k = pick(c);
        if (cases()[k].spec.mesh_format.file_type) throw Skip{};
        static std::map<size_t, std::pair<std::string, Loaded>> cache;
        auto& x = cache[k];
        if (x.first.empty()) { const ref::File f = ref::content_of(cases()[k].spec, EXT); Spelled st; x.first = ref::Encoder(f, st).file(); x.second = load_bytes(x.first); c.check(x.second.ok, "other spellings refused: " + x.second.error); }
        load_in(c, k, choose_state(c), x.first, x.second);
    }, th ? 3 : 2});
    // failures keep the state too: refused content, damaged files, failing devices
    e.add({"refused", [=](Ctx& c) {
        const size_t k = pick(c);
        const int how = static_cast<int>(c.free_choose(9));
        const size_t part = c.free_choose(8);
        const State s = choose_state(c);
        const Case& q = cases()[k];
        if (c.want_desc) c.describe("failure " + std::to_string(how) + " at " + std::to_string(part) + "/8 of " + q.name + " with " + s.log);
        Global g(locales[s.global].second);
        if (how < 5) {
            MshSpec m = q.spec;
            if (how == 0) m.mesh_format.version = "9.9";
            if (how == 1) m.elements.entity_blocks.back().element_type = 77;
            if (how == 2) { m.elements.entity_blocks.back().data[0] = 1ull << 40; }
            FailAt buf(q.bytes.size() * part / 8, how == 4);
            std::stringbuf sb;
            std::streambuf* rb = how < 3 ? static_cast<std::streambuf*>(&sb) : &buf;
            std::ostream out(rb);
            dress(out, s);
            // with an exception mask the stream itself throws
            const auto mask = (how == 4 && part % 2) ? std::ios::badbit : std::ios::goodbit;
            out.exceptions(mask);
            try { save_msh(out, m); } catch (...) {}
            const std::string ch = changed(out, s, rb, mask);
            result(c, "failing save " + std::to_string(how) + "." + std::to_string(part), s, k);
            c.check(ch.empty(), "a failing save changed the " + ch + " of the stream (" + s.log + ")");
        } else {
            std::string b = q.bytes;
            if (how == 5) b = b.substr(0, b.size() * part / 8);
            if (how == 6) b.replace(b.find("4.1") == 14 || b.compare(13, 3, "2.2") != 0 ? b.find(q.spec.mesh_format.version) : 13, 3, "7.3");
            if (how == 7) b[b.size() * part / 8] = '$';
            if (how == 8) b = "";
            std::istringstream in(b, std::ios::binary | std::ios::in);
            dress(in, s);
            try { alloc::Cap cap(16u << 20); if (how != 7 || part < 2) load_msh(in); else load_msh(in); } catch (...) {}
            const std::string ch = changed(in, s, in.rdbuf(), std::ios::goodbit);
            result(c, "failing load " + std::to_string(how) + "." + std::to_string(part), s, k);
            c.check(ch.empty(), "a failing load changed the " + ch + " of the stream (" + s.log + ")");
        }
        c.traced(); c.tag("state kept by a failing call");
    }, th ? 3 : 2});
    // by name: only the global locale matters
    e.add({"by-name", [=, &scratch](Ctx& c) {
        const size_t k = pick(c), g = c.free_choose(static_cast<uint32_t>(locales.size()));
        const Case& q = cases()[k];
        const std::string path = scratch.file();
        Loaded l; std::string err;
        {
            Global gl(locales[g].second);
            try { save_msh(path, q.spec); l.spec = load_msh(path); l.ok = true; } catch (const std::exception& x) { err = x.what(); }
        }
        State s; s.log = "global locale " + locales[g].first;
        result(c, "by name", s, k);
        if (c.want_desc) c.describe("save and load of " + q.name + " by name under the " + s.log);
        c.check(l.ok, "fails under the " + s.log + ": " + err);
        c.check(slurp(path) == q.bytes, "saving by name writes other bytes under the " + s.log);
        const std::string d = diff(q.loaded.spec, l.spec);
        c.check(d.empty(), "loading by name gives other content under the " + s.log + ": " + d);
        unlink(path.c_str());
        c.traced(); c.tag("by name");
    }, 0});
    // the caller's numbers still print as before
    e.add({"sequence", [=](Ctx& c) {
        const size_t k = pick(c);
        const State s = choose_state(c);
        const Case& q = cases()[k];
        Global g(locales[s.global].second);
        std::ostringstream a(std::ios::binary), b(std::ios::binary);
        dress(a, s); dress(b, s);
        save_msh(a, q.spec);
        a << 1234.5 << ' ' << 255 << ' ' << true; b << 1234.5 << ' ' << 255 << ' ' << true;
        result(c, "sequence", s, k);
        if (c.want_desc) c.describe("numbers after a save of " + q.name + " with " + s.log);
        c.check(a.str() == q.bytes + b.str(), "what the caller prints after saving changed (" + s.log + ")");
        std::ostringstream p(std::ios::binary), r(std::ios::binary);
        dress(p, s); dress(r, s);
        save_msh(p, q.spec); save_msh(p, q.spec);
        c.check(p.str() == q.bytes + q.bytes, "a second save to the same stream differs (" + s.log + ")");
        c.traced(); c.tag("sequence");
    }, th ? 3 : 2});
    if (locales.size() < 11) fprintf(stdout, "note: %zu of 11 locales available\n", locales.size());
    return run_main(e);
}
