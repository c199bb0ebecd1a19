// C11: loading depends only on the bytes, and read errors are reported.
#define ALLOC_COUNT
#include "alloc_count.h"
#include "sysio.h"
#include "mini.h"
#include "oracle.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <thread>
using namespace mc; using namespace sp; using namespace gen;
#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool EXT = true;
#else
constexpr bool EXT = false;
#endif

// Hands out the bytes in pieces; cannot seek; can fail at a position.
struct Source : std::streambuf {
    const std::string& bytes;
    std::function<size_t(size_t pos)> piece;   // size of the next piece at this position
    size_t pos = 0, fail_at;
    int mode;  // 0 throws from there on, 1 throws once, 2 throws something else once
    size_t failures = 0;
    std::string area;
    Source(const std::string& b, std::function<size_t(size_t)> p, size_t f = static_cast<size_t>(-1), int m = 0) : bytes(b), piece(std::move(p)), fail_at(f), mode(m) {}
    int_type underflow() override {
        if (pos >= fail_at && (mode == 0 || failures == 0)) {
            failures++;
            if (mode == 2) throw 42;
            throw std::runtime_error("device failed");
        }
        size_t n = std::max<size_t>(1, piece(pos));
        n = std::min(n, bytes.size() - pos);
        if (pos < fail_at) n = std::min(n, fail_at - pos);
        if (n == 0) return traits_type::eof();
        area.assign(bytes, pos, n);      // earlier pieces are gone
        pos += n;
        setg(&area[0], &area[0], &area[0] + n);
        return traits_type::to_int_type(area[0]);
    }
};
// No buffer at all: one byte at a time, nothing can be put back, cannot seek.
struct Unbuffered : std::streambuf {
    const std::string& bytes; size_t pos = 0, fail_at, failures = 0; int mode;
    explicit Unbuffered(const std::string& b, size_t f = static_cast<size_t>(-1), int m = 0) : bytes(b), fail_at(f), mode(m) {}
    void device() { if (pos >= fail_at && (mode == 0 || failures == 0)) { failures++; if (mode == 2) throw 42; throw std::runtime_error("device failed"); } }
    int_type underflow() override { device(); return pos == bytes.size() ? traits_type::eof() : traits_type::to_int_type(bytes[pos]); }
    int_type uflow() override { device(); return pos == bytes.size() ? traits_type::eof() : traits_type::to_int_type(bytes[pos++]); }
    int_type pbackfail(int_type) override { return traits_type::eof(); }
};
static std::string outcome(const Loaded& l) { return l.ok ? "ok " + image(l.spec) : "error"; }

static void same(Ctx& c, const std::string& bytes, const Loaded& whole, const Loaded& got, const std::string& how) {
    c.step(); c.evaluated();
    if (c.want_desc) c.describe(how + "\ninput (" + std::to_string(bytes.size()) + " bytes):\n" + hexdump(bytes, 5000));
    c.check(whole.ok == got.ok, how + ": " + (got.ok ? "accepted, but refused in one piece (" + whole.error + ")" : "refused (" + got.error + "), but accepted in one piece"));
    if (whole.ok) { const std::string d = diff(whole.spec, got.spec); c.check(d.empty(), how + ": other content than in one piece: " + d); }
    c.traced();
    c.tag(whole.ok ? "same content" : "refused both times");
}
static Loaded capped(std::istream& in) { alloc::Cap cap(16u << 20); return load(in); }  // what damaged counts may ask for
static Loaded from(Ctx& c, const std::string& b) { c.step(); alloc::Cap cap(16u << 20); return load_bytes(b); }

struct Input { std::string name, bytes; };
struct Tight : ref::Style { bool nl; explicit Tight(bool n) : nl(n) {} std::string after_binary() override { return nl ? "\n" : ""; } };
struct Crlf : ref::Style { std::string eol() override { return "\r\n"; } };

// Files of one format: by the library, by the encoder in two layouts, and a set of damaged ones.
static const std::vector<Input>& inputs(const mini::Fmt& f, const MshSpec& s, bool damaged) {
    static std::map<std::string, std::vector<Input>> cache;
    std::vector<Input>& v = cache[image(s) + (damaged ? "d" : "")];
    if (!v.empty()) return v;
    v.push_back({"saved", save_bytes(s).bytes});
    const ref::File file = ref::content_of(s, EXT);
    { Tight st(false); v.push_back({"encoded tight", ref::Encoder(file, st).file()}); }
    if (!f.type) { Crlf st; v.push_back({"encoded crlf", ref::Encoder(file, st).file()}); }
    { std::string b = save_bytes(s).bytes; const size_t p = b.find("$EndMeshFormat\n") + 15; b.insert(p, "$Comments\n$End $Nodes 12\n$EndComment $EndComments\n"); v.push_back({"with comments", b}); }
    if (damaged) {
        const std::string b = v[1].bytes;
        for (size_t k = 1; k < 24; k++) v.push_back({"cut", b.substr(0, b.size() * k / 24)});
        // (a name keeps its quotes: std::quoted needs one character of put-back for a bare word, which no MSH file contains)
        for (size_t k = 0; k < 24; k++) { std::string d = b; size_t at = b.size() * k / 24; while (d[at] == '"') at++; d[at] = '$'; v.push_back({"damaged", d}); }
    }
    return v;
}
static MshSpec any_small(Ctx& c, mini::Fmt& f) {
    f = c.free_of(mini::formats());
    const std::string n = c.free_of(mini::sections(EXT));
    return mini::only(mini::fixed(f, static_cast<int>(c.free_choose(2)), EXT), n);
}

int main(int argc, char** argv) {
    Quiet quiet;
    sysio::Scratch scratch;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    signal(SIGPIPE, SIG_IGN);

    // pieces of every size
    e.add({"sizes", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const MshSpec s = mini::fixed(f, static_cast<int>(c.free_choose(2)), EXT);
        const auto& in = inputs(f, s, true);
        const auto& b = in[c.free_choose(static_cast<uint32_t>(in.size()))];
        const size_t max = c.thorough || b.name == "saved" ? b.bytes.size() : std::min<size_t>(64, b.bytes.size());
        if (max == 0) throw Skip{};
        const size_t n = 1 + c.free_choose(static_cast<uint32_t>(max));
        const Loaded whole = from(c, b.bytes);
        Source src(b.bytes, [n](size_t) { return n; });
        std::istream is(&src);
        c.state(fnv(b.bytes, n)); c.nontrivial(fnv(b.bytes, n));
        same(c, b.bytes, whole, capped(is), b.name + " in pieces of " + std::to_string(n));
    }, 0});
    // two pieces, split at every position
    e.add({"split", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const MshSpec s = mini::fixed(f, static_cast<int>(c.free_choose(2)), EXT);
        const auto& in = inputs(f, s, false);
        const auto& b = in[c.free_choose(static_cast<uint32_t>(in.size()))];
        const size_t at = c.free_choose(static_cast<uint32_t>(b.bytes.size()) + 1);
        const Loaded whole = from(c, b.bytes);
        Source src(b.bytes, [&](size_t p) { return p < at ? at - p : b.bytes.size() - p; });
        std::istream is(&src);
        c.state(fnv(b.bytes, at)); c.nontrivial(fnv(b.bytes, at));
        same(c, b.bytes, whole, capped(is), b.name + " split at byte " + std::to_string(at));
    }, 0});
    // a device without a buffer, healthy and failing at every byte
    e.add({"unbuffered", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const MshSpec s = mini::fixed(f, static_cast<int>(c.free_choose(2)), EXT);
        const bool fails = c.free_flag();
        const auto& in = inputs(f, s, !fails);
        const auto& b = in[c.free_choose(static_cast<uint32_t>(in.size()))];
        const size_t at = fails ? c.free_choose(static_cast<uint32_t>(b.bytes.size()) + 1) : static_cast<size_t>(-1);
        const int mode = fails ? static_cast<int>(c.free_choose(c.thorough ? 3 : 1)) : 0;
        Unbuffered src(b.bytes, at, mode);
        std::istream is(&src);
        const uint64_t h = fnv(b.bytes, at * 4 + static_cast<size_t>(mode));
        c.state(h);
        if (!fails) { const Loaded whole = from(c, b.bytes); c.nontrivial(h); same(c, b.bytes, whole, capped(is), b.name + " from a device without a buffer"); return; }
        if (c.want_desc) c.describe(b.name + ": unbuffered read error at byte " + std::to_string(at) + " of " + std::to_string(b.bytes.size()) + ", mode " + std::to_string(mode) + "\n" + hexdump(b.bytes, 5000));
        bool threw = false;
        try { const Loaded l = capped(is); threw = !l.ok; } catch (...) { threw = true; }
        c.step(); c.evaluated();
        if (src.failures) { c.nontrivial(h); c.check(threw, "a read error at byte " + std::to_string(at) + " of " + std::to_string(b.bytes.size()) + " was not reported (device without a buffer)"); }
        c.tag(src.failures ? "error reported" : "not read that far");
    }, 0});
    // the streams of the standard library, with any buffer, standing behind other content
    e.add({"positioned", [&](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const MshSpec s = mini::fixed(f, static_cast<int>(c.free_choose(2)), EXT);
        const auto& in = inputs(f, s, true);
        const auto& b = in[c.free_choose(static_cast<uint32_t>(in.size()))];
        const size_t other = c.free_choose(9);
        const std::string before = other < 4 ? save_bytes(mini::fixed(mini::formats()[other], 0, EXT)).bytes : std::string((const size_t[]){1, 7, 8191, 8192, 70000}[other - 4], '#');
        const uint32_t kind = c.free_choose(7);
        const Loaded whole = from(c, b.bytes);
        const std::string p = scratch.file("positioned"), all = before + b.bytes;
        const uint64_t h = fnv(b.bytes + mini::name(f), fnv(before, kind));
        c.state(h); c.nontrivial(h);
        const std::string what = b.name + " behind " + std::to_string(before.size()) + " other bytes, stream kind " + std::to_string(kind);
        if (kind < 3) {
            std::stringstream st(all, kind == 0 ? std::ios::in : kind == 1 ? std::ios::in | std::ios::out : std::ios::in | std::ios::out | std::ios::ate | std::ios::binary);
            st.seekg(static_cast<std::streamoff>(before.size()));
            same(c, b.bytes, whole, capped(st), what);
            return;
        }
        { std::ofstream o(p, std::ios::binary); o << all; if (!o.flush()) throw Internal("scratch"); }
        std::filebuf fb; char small[3];
        if (kind == 4) fb.pubsetbuf(nullptr, 0);
        if (kind == 5) fb.pubsetbuf(small, sizeof small);
        if (!fb.open(p, kind == 6 ? std::ios::in | std::ios::out | std::ios::binary : std::ios::in | std::ios::binary)) throw Internal("scratch");
        std::istream is(&fb);
        if (kind == 3) { std::string skip(before.size(), 0); is.read(&skip[0], static_cast<std::streamsize>(skip.size())); }  // read up to there
        else is.seekg(static_cast<std::streamoff>(before.size()));
        same(c, b.bytes, whole, capped(is), what);
        fb.close(); unlink(p.c_str());
    }, 0});
    // small files: every pair of splits
    e.add({"pairs", [](Ctx& c) {
        mini::Fmt f{};
        const MshSpec s = any_small(c, f);
        const std::string b = save_bytes(s).bytes;
        const size_t limit = c.thorough ? 480 : 260;
        if (b.size() > limit) throw Skip{};
        const size_t p = c.free_choose(static_cast<uint32_t>(b.size())), q = p + c.free_choose(static_cast<uint32_t>(b.size() - p));
        const Loaded whole = from(c, b);
        Source src(b, [&](size_t x) { return x < p ? p - x : x < q ? q - x : b.size() - x; });
        std::istream is(&src);
        c.state(fnv(b, p * 65536 + q)); c.nontrivial(fnv(b, p * 65536 + q));
        same(c, b, whole, capped(is), "split at bytes " + std::to_string(p) + " and " + std::to_string(q));
    }, 0});
    // each piece asked for is answered by a chosen size
    e.add({"demand", [](Ctx& c) {
        mini::Fmt f{};
        const MshSpec s = any_small(c, f);
        const std::string b = save_bytes(s).bytes;
        const Loaded whole = from(c, b);
        const size_t base = c.free_of<size_t>({16, 5, 2});
        std::string log;
        Source src(b, [&](size_t) { const size_t n = c.of<size_t>({base, 1, 3, 8, 24}); if (n != base || base != 16) log += std::to_string(n) + ","; return n; });
        std::istream is(&src);
        const Loaded l = capped(is);
        c.state(fnv(b, fnv(log))); c.nontrivial(fnv(b, fnv(log)));
        same(c, b, whole, l, "pieces " + log);
    }, th ? 2 : 1});
    // a read error at every position
    e.add({"errors", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const MshSpec s = mini::fixed(f, static_cast<int>(c.free_choose(2)), EXT);
        const auto& in = inputs(f, s, false);
        const auto& b = in[c.free_choose(static_cast<uint32_t>(in.size()))];
        const int mode = static_cast<int>(c.free_choose(3));
        const size_t n = c.free_of<size_t>({100000, 1, 13});
        const size_t at = c.free_choose(static_cast<uint32_t>(b.bytes.size()) + 1);
        Source src(b.bytes, [n](size_t) { return n; }, at, mode);
        std::istream is(&src);
        if (c.want_desc) c.describe(b.name + ": read error at byte " + std::to_string(at) + " of " + std::to_string(b.bytes.size()) + ", mode " + std::to_string(mode) + "\n" + hexdump(b.bytes, 5000));
        bool threw = false;
        try { const Loaded l = capped(is); threw = !l.ok; } catch (...) { threw = true; }
        c.step(); c.evaluated();
        const uint64_t h = fnv(b.bytes, at * 16 + static_cast<size_t>(mode) * 4 + n % 3);
        c.state(h);
        if (src.failures) c.nontrivial(h);
        if (src.failures) c.check(threw, "a read error at byte " + std::to_string(at) + " of " + std::to_string(b.bytes.size()) + " was not reported");
        c.tag(src.failures ? "error reported" : "not read that far");
    }, 0});
    e.add({"errors-sections", [](Ctx& c) {
        mini::Fmt f{};
        const MshSpec s = any_small(c, f);
        const std::string b = save_bytes(s).bytes;
        const int mode = static_cast<int>(c.free_choose(3));
        const size_t at = c.free_choose(static_cast<uint32_t>(b.size()) + 1);
        Source src(b, [&](size_t) { return b.size(); }, at, mode);
        std::istream is(&src);
        if (c.want_desc) c.describe("read error at byte " + std::to_string(at) + " of " + std::to_string(b.size()) + "\n" + hexdump(b, 5000));
        bool threw = false;
        try { const Loaded l = capped(is); threw = !l.ok; } catch (...) { threw = true; }
        c.step(); c.evaluated();
        c.state(fnv(b, at * 4 + static_cast<size_t>(mode)));
        if (src.failures) c.nontrivial(fnv(b, at * 4 + static_cast<size_t>(mode)));
        if (src.failures) c.check(threw, "a read error at byte " + std::to_string(at) + " of " + std::to_string(b.size()) + " was not reported");
        c.tag("error reported");
    }, 0});

    // ---- by file name
    auto put = [&](const std::string& path, const std::string& b) { FILE* fp = fopen(path.c_str(), "wb"); if (!fp || fwrite(b.data(), 1, b.size(), fp) != b.size() || fclose(fp)) throw Internal("scratch file"); };
    auto by_name = [](const std::string& path) {
        Loaded l;
        try { alloc::Cap cap(16u << 20); l.spec = load_msh(path); l.ok = true; } catch (const std::exception& x) { l.error = x.what(); }
        return l;
    };
    // the device fails at every byte
    e.add({"file-errors", [&](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const MshSpec s = mini::fixed(f, static_cast<int>(c.free_choose(2)), EXT);
        const std::string b = save_bytes(s).bytes;
        const size_t at = c.free_choose(static_cast<uint32_t>(b.size()) + 1);
        const int err = c.free_of({EIO, ESTALE, ENOMEM});
        const bool once = c.free_flag();
        const std::string path = scratch.file();
        put(path, b);
        sysio::Plan plan;
        size_t given = 0, failures = 0;
        plan.on_read = [&](int, size_t n) -> long {
            if (given >= at && (!once || !failures)) { failures++; return -err; }
            const size_t k = given < at ? std::min(n, at - given) : n;
            given += k;
            return static_cast<long>(k);
        };
        Loaded l;
        { sysio::Arm a(plan); l = by_name(path); }
        c.step(); c.evaluated();
        if (c.want_desc) c.describe("read of a file fails with errno " + std::to_string(err) + " at byte " + std::to_string(at) + " of " + std::to_string(b.size()));
        c.state(fnv(b, at * 8 + static_cast<size_t>(err % 4) * 2 + once));
        if (failures) c.nontrivial(fnv(b, at * 8 + static_cast<size_t>(err % 4) * 2 + once));
        if (failures) c.check(!l.ok, "a read error at byte " + std::to_string(at) + " of " + std::to_string(b.size()) + " was not reported");
        c.tag(failures ? "error reported" : "no error delivered");
        unlink(path.c_str());
    }, 0});
    // every system call answered in every way
    e.add({"file-calls", [&](Ctx& c) {
        mini::Fmt f{};
        const MshSpec s = any_small(c, f);
        const std::string b = save_bytes(s).bytes, path = scratch.file();
        const Loaded whole = from(c, b);
        put(path, b);
        sysio::Plan plan;
        bool failed = false;
        int again = 0;
        std::string log;
        const size_t base = c.free_of<size_t>({1 << 20, 64, 17});
        plan.on_read = [&](int, size_t n) -> long {
            const uint32_t k = c.choose(6);
            const long d = static_cast<long>(std::min(n, base));
            if (k) log += " call " + std::to_string(plan.reads) + ":" + std::to_string(k);
            switch (k) {
            case 0: again = 0; return d;
            case 1: failed = true; return -EIO;
            case 2: return 1;
            case 3: if (++again > 3) return d; return -EINTR;
            case 4: return static_cast<long>((n + 1) / 2);
            default: failed = true; return -ENOMEM;
            }
        };
        Loaded l;
        { sysio::Arm a(plan); l = by_name(path); }
        if (c.want_desc) c.describe("reads of at most " + std::to_string(base) + " bytes, answers" + log);
        c.state(fnv(b, fnv(log))); c.nontrivial(fnv(b, fnv(log)));
        if (failed) { c.step(); c.evaluated(); c.check(!l.ok, "a read error was not reported:" + log); c.tag("error reported"); }
        else same(c, b, whole, l, "reads:" + log);
        c.tag(plan.reads ? "reads intercepted" : "no reads intercepted");
        unlink(path.c_str());
    }, th ? 2 : 1});
    // real pipes and files of several buffer sizes
    e.add({"pipe", [&](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        Opt o; o.version = f.version; o.file_type = f.type; o.ext = EXT; o.vary_values = o.vary_counts = false;
        o.target = c.free_of<std::string>({"", "nodes_in_block", "elements_in_block", "node_data.entries", "physical_groups.name"});
        o.length = o.target.empty() ? 0 : c.free_of<size_t>({100, 400, 2000, 5000});
        const MshSpec s = Gen(c, o).spec();
        const std::string b = save_bytes(s).bytes;
        const size_t n = c.free_of<size_t>({1 << 20, 1, 2, 7, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16383});
        if (n < 64 && b.size() > 20000) throw Skip{};
        const Loaded whole = from(c, b);
        const std::string path = scratch.file("pipe");
        unlink(path.c_str());
        if (mkfifo(path.c_str(), 0600)) throw Internal("mkfifo");
        std::thread writer([&] {
            const int fd = open(path.c_str(), O_WRONLY);
            if (fd < 0) return;
            for (size_t p = 0; p < b.size();) { const ssize_t k = ::write(fd, b.data() + p, std::min(n, b.size() - p)); if (k <= 0) break; p += static_cast<size_t>(k); }
            ::close(fd);
        });
        const Loaded l = by_name(path);
        writer.join();
        unlink(path.c_str());
        c.state(fnv(b, n)); c.nontrivial(fnv(b, n));
        same(c, b, whole, l, "through a pipe in pieces of " + std::to_string(n));
    }, 0, 60});
    e.add({"not-files", [&](Ctx& c) {
        const std::string path = c.free_of<std::string>({scratch.dir, "/dev/null", scratch.dir + "/missing", ""});
        const Loaded l = by_name(path);
        c.step(); c.evaluated(); c.state(path); c.nontrivial(fnv(path));
        c.check(!l.ok, "loading from " + path + " succeeded");
        c.tag("error reported");
    }, 0});
    return run_main(e);
}
