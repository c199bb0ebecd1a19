// C10: a save that could not write everything is reported; one that returns wrote everything.
#include "sysio.h"
#include "mini.h"
#include <sys/resource.h>
#include <sys/stat.h>
using namespace mc; using namespace sp; using namespace gen;
#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool EXT = true;
#else
constexpr bool EXT = false;
#endif

// Takes `limit` bytes and then fails: for good, once, or by throwing; the k-th flush may fail too.
struct Sink : std::streambuf {
    std::string got, area;
    size_t limit, flushes = 0, fail_flush;
    int mode;  // 0 for good, 1 once, 2 throws, 3 throws once
    bool failed = false;
    Sink(size_t l, int m, size_t buffer, size_t ff) : area(buffer, 0), limit(l), fail_flush(ff), mode(m) { if (buffer) setp(&area[0], &area[0] + buffer); }
    bool put(const char* s, size_t n) {
        if (failed && (mode == 1 || mode == 3)) { got.append(s, n); return true; }
        const size_t k = got.size() >= limit ? 0 : std::min(n, limit - got.size());
        got.append(s, k);
        if (k == n) return true;
        failed = true;
        if (mode >= 2) throw std::runtime_error("device failed");
        return false;
    }
    bool drain() {
        const size_t n = static_cast<size_t>(pptr() - pbase());
        if (!n) return true;
        const bool ok = put(pbase(), n);
        setp(&area[0], &area[0] + area.size());
        return ok;
    }
    int_type overflow(int_type ch) override {
        if (!drain()) return traits_type::eof();
        if (traits_type::eq_int_type(ch, traits_type::eof())) return 0;
        const char x = traits_type::to_char_type(ch);
        if (!area.empty()) { *pptr() = x; pbump(1); return ch; }
        return put(&x, 1) ? ch : traits_type::eof();
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        if (!area.empty()) return std::streambuf::xsputn(s, n);
        const size_t before = got.size();
        return put(s, static_cast<size_t>(n)) ? n : static_cast<std::streamsize>(got.size() - before);
    }
    int sync() override {
        if (flushes++ == fail_flush) { failed = true; return -1; }
        return drain() ? 0 : -1;
    }
};

static void try_stream(Ctx& c, const MshSpec& s, const std::string& full, size_t limit, int mode, size_t buffer, size_t ff) {
    Sink sink(limit, mode, buffer, ff);
    std::ostream out(&sink);
    bool threw = false;
    std::string err;
    if (c.want_desc) c.describe("the destination takes " + std::to_string(limit) + " of " + std::to_string(full.size()) + " bytes, mode " + std::to_string(mode) + ", buffer " + std::to_string(buffer) + ", failing flush " + std::to_string(ff) + "\n" + dump(s).substr(0, 3000));
    try { save_msh(out, s); } catch (const std::exception& e) { threw = true; err = e.what(); }
    c.step(); c.evaluated();
    const bool inside = sink.failed;         // during the call
    if (!threw) out.flush();                 // what was left in the caller's buffer
    const bool reported = threw || !out.good();
    c.check(!sink.failed || reported, "a failed write was not reported");
    c.check(!inside || reported, "a failed write was not reported by the call");
    if (!sink.failed) {
        c.check(!reported, "a healthy destination was reported as failed: " + err);
        c.check(sink.got == full, "the destination does not hold the complete bytes");
        c.traced();
    }
    c.state(fnv(full, fnv(std::to_string(limit) + "/" + std::to_string(mode) + "/" + std::to_string(buffer) + "/" + std::to_string(ff))));
    if (sink.failed) c.nontrivial(fnv(full, fnv(std::to_string(limit) + "/" + std::to_string(mode) + "/" + std::to_string(buffer) + "/" + std::to_string(ff))));
    c.tag(sink.failed ? (threw ? "failure thrown" : "failure in the stream state") : "complete");
}
static std::string complete(Ctx& c, const MshSpec& s) { const Saved f = save_bytes(s); c.step(); c.check(f.ok, "save refused: " + f.error); return f.bytes; }

static void by_name(Ctx& c, const MshSpec& s, const std::string& full, const std::string& path, bool failed_known, const std::function<bool()>& failed, const std::string& what) {
    (void)failed_known;
    bool threw = false;
    std::string err;
    try { save_msh(path, s); } catch (const std::exception& e) { threw = true; err = e.what(); }
    c.step(); c.evaluated();
    const bool f = failed();
    if (c.want_desc) c.describe(what + "\n" + dump(s).substr(0, 3000));
    c.check(!f || threw, "save_msh(filename) returned although a write failed: " + what);
    if (!threw) c.check(slurp(path) == full, "save_msh(filename) returned, but the file does not hold the complete bytes: " + what);
    if (!f) { c.check(!threw, "save_msh(filename) failed on a healthy file (" + err + "): " + what); c.traced(); }
    c.state(fnv(what, fnv(full)));
    if (f) c.nontrivial(fnv(what, fnv(full)));
    c.tag(f ? "failure reported" : "complete");
}

int main(int argc, char** argv) {
    Quiet quiet;
    sysio::Scratch scratch;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    signal(SIGXFSZ, SIG_IGN);
    auto small = [](Ctx& c, bool rich) {
        const mini::Fmt f = c.free_of(mini::formats());
        return mini::only(mini::fixed(f, rich, EXT), c.free_of(mini::sections(EXT)));
    };
    // a stream that fails at every byte, in every way, unbuffered and buffered
    e.add({"stream", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const MshSpec s = mini::fixed(f, static_cast<int>(c.free_choose(2)), EXT);
        const std::string full = complete(c, s);
        const size_t buffer = c.free_of<size_t>({0, 1, 7, 64, 4096});
        const int mode = static_cast<int>(c.free_choose(4));
        const size_t limit = c.free_choose(static_cast<uint32_t>(full.size()) + 1);
        try_stream(c, s, full, limit, mode, buffer, static_cast<size_t>(-1));
    }, 0});
    e.add({"stream-sections", [small](Ctx& c) {
        const MshSpec s = small(c, c.free_flag());
        const std::string full = complete(c, s);
        const int mode = static_cast<int>(c.free_choose(4));
        const size_t limit = c.free_choose(static_cast<uint32_t>(full.size()) + 1);
        try_stream(c, s, full, limit, mode, 0, static_cast<size_t>(-1));
    }, 0});
    e.add({"stream-variants", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        Opt o; o.version = f.version; o.file_type = f.type; o.ext = EXT; o.vary_values = false;
        const MshSpec s = Gen(c, o).spec();
        const std::string full = complete(c, s);
        const size_t n = full.size() + 1;
        const size_t limit = c.free_choose(static_cast<uint32_t>(n));
        try_stream(c, s, full, limit, 1, 0, static_cast<size_t>(-1));
    }, 1});
    e.add({"flush", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const MshSpec s = mini::fixed(f, static_cast<int>(c.free_choose(2)), EXT);
        const std::string full = complete(c, s);
        const size_t lines = static_cast<size_t>(std::count(full.begin(), full.end(), '\n'));
        try_stream(c, s, full, full.size(), 0, c.free_of<size_t>({0, 64}), c.free_choose(static_cast<uint32_t>(lines) + 2));
    }, 0});
    // the system refuses to let the file grow beyond every size
    e.add({"file-limit", [&](Ctx& c) {
        const MshSpec s = c.free_flag() ? mini::fixed(c.free_of(mini::formats()), static_cast<int>(c.free_choose(2)), EXT) : small(c, c.free_flag());
        const std::string full = complete(c, s);
        const size_t limit = c.free_choose(static_cast<uint32_t>(full.size()) + 1);
        const std::string path = scratch.file();
        struct rlimit old, now;
        getrlimit(RLIMIT_FSIZE, &old);
        now = old; now.rlim_cur = limit;
        struct Restore { struct rlimit& o; ~Restore() { setrlimit(RLIMIT_FSIZE, &o); } };
        { Restore r{old}; if (setrlimit(RLIMIT_FSIZE, &now)) throw Internal("setrlimit");
          by_name(c, s, full, path, true, [&] { return limit < full.size(); }, "file limited to " + std::to_string(limit) + " of " + std::to_string(full.size()) + " bytes"); }
        unlink(path.c_str());
    }, 0});
    e.add({"long-limit", [&](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        Opt o; o.version = f.version; o.file_type = f.type; o.ext = EXT; o.vary_values = o.vary_counts = false;
        o.target = c.free_of<std::string>({"nodes_in_block", "elements_in_block", "node_data.entries", "physical_groups.name", "points"}); o.length = c.free_of<size_t>({100, 1000, 4000, 10000});
        const MshSpec s = Gen(c, o).spec();
        const std::string full = complete(c, s);
        std::vector<size_t> at;
        for (size_t k = 0; k < 18; k++) { const size_t p = 1ull << k; for (int d : {-1, 0, 1}) if (p + static_cast<size_t>(d) < full.size()) { at.push_back(p + static_cast<size_t>(d)); at.push_back(full.size() - p - static_cast<size_t>(d)); } }
        for (size_t k = 0; k <= full.size(); k += 8191) at.push_back(k);
        at.push_back(full.size());
        const size_t limit = c.free_of(at);
        const std::string path = scratch.file();
        struct rlimit old, now;
        getrlimit(RLIMIT_FSIZE, &old);
        now = old; now.rlim_cur = limit;
        struct Restore { struct rlimit& o; ~Restore() { setrlimit(RLIMIT_FSIZE, &o); } };
        { Restore r{old}; if (setrlimit(RLIMIT_FSIZE, &now)) throw Internal("setrlimit");
          by_name(c, s, full, path, true, [&] { return limit < full.size(); }, "file limited to " + std::to_string(limit) + " of " + std::to_string(full.size()) + " bytes"); }
        unlink(path.c_str());
    }, 0, 60});
    // every system call of the save answered in every way: all, short, interrupted, failed; the close too
    auto calls = [&](Ctx& c, const MshSpec& s, int menu) {
        const std::string full = complete(c, s);
        const std::string path = scratch.file();
        sysio::Plan plan;
        bool failed = false;
        std::string log;
        int interrupted = 0;
        plan.on_write = [&](int, size_t n) -> long {
            const uint32_t k = c.choose(static_cast<uint32_t>(menu));
            if (k) log += " call " + std::to_string(plan.writes) + " (" + std::to_string(n) + " bytes): ";
            switch (k) {
            case 0: interrupted = 0; return static_cast<long>(n);
            case 1: log += "ENOSPC"; failed = true; return -ENOSPC;
            case 2: log += "one byte"; return 1;
            case 3: if (++interrupted > 3) return static_cast<long>(n); log += "EINTR"; return -EINTR;
            case 4: log += "EIO"; failed = true; return -EIO;
            case 5: log += "half"; return static_cast<long>((n + 1) / 2);
            case 6: log += "all but one"; return static_cast<long>(n > 1 ? n - 1 : 1);
            case 7: log += "EDQUOT"; failed = true; return -EDQUOT;
            default: log += "EPIPE"; failed = true; return -EPIPE;
            }
        };
        plan.on_close = [&](int) -> int { const uint32_t k = c.choose(3); if (k) { failed = true; log += " close failed"; } return k == 0 ? 0 : k == 1 ? EIO : ENOSPC; };
        { sysio::Arm a(plan); by_name(c, s, full, path, true, [&] { sysio::armed = nullptr; return failed; }, "system calls:" + log); }
        c.tag(plan.writes + plan.closes ? "calls intercepted" : "no calls intercepted");
        unlink(path.c_str());
    };
    e.add({"calls", [=](Ctx& c) { calls(c, mini::fixed(c.free_of(mini::formats()), c.thorough ? static_cast<int>(c.free_choose(2)) : 1, EXT), 9); }, 1});
    e.add({"call-pairs", [=](Ctx& c) { calls(c, small(c, false), c.thorough ? 7 : 4); }, th ? 3 : 2});
    // a device that is always full
    e.add({"full-device", [=](Ctx& c) {
        const MshSpec s = small(c, c.free_flag());
        struct stat st;
        if (stat("/dev/full", &st) || !S_ISCHR(st.st_mode)) throw Skip{};
        bool threw = false;
        try { save_msh(std::string("/dev/full"), s); } catch (const std::exception&) { threw = true; }
        c.step(); c.evaluated(); c.state(image(s)); c.nontrivial(fnv(image(s)));
        c.check(threw, "saving to a full device returned normally");
        c.tag("failure reported");
    }, 0});
    return run_main(e);
}
