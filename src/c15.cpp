// C15: calls are independent of earlier calls and of calls in other threads.
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <cfenv>
#include <sys/stat.h>
#include "interleave.h"
#include "mini.h"
#include <cfenv>
#include <clocale>
#include <fcntl.h>
#include <sys/stat.h>
using namespace mc; using namespace sp; using namespace gen;
#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool EXT = true;
#else
constexpr bool EXT = false;
#endif
__attribute__((init_priority(101))) static sched::Started started;

// ---- streams with a scheduling point at every operation
struct In : std::streambuf {
    const std::string& b; size_t at = 0, piece; bool fails;
    In(const std::string& s, size_t p, bool f = false) : b(s), piece(p), fails(f) {}
    int_type underflow() override {
        sched::point(sched::STREAM, false);
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (fails && at * 2 > b.size()) throw std::runtime_error("read error");
        if (at == b.size()) return traits_type::eof();
        const size_t k = std::min(piece, b.size() - at);
        char* p = const_cast<char*>(b.data()) + at;
        setg(p, p, p + k); at += k;
        return traits_type::to_int_type(*p);
    }
};
struct Out : std::streambuf {
    std::string b; size_t limit; char buf[24];
    explicit Out(size_t l) : limit(l) { setp(buf, buf + sizeof buf); }
    bool flush() { sched::point(sched::STREAM, false); const size_t n = static_cast<size_t>(pptr() - pbase()); if (b.size() + n > limit) return false; b.append(pbase(), n); setp(buf, buf + sizeof buf); return true; }
    int_type overflow(int_type ch) override { if (!flush()) return traits_type::eof(); if (!traits_type::eq_int_type(ch, traits_type::eof())) { *pptr() = static_cast<char>(ch); pbump(1); } return traits_type::not_eof(ch); }
    int sync() override { return flush() ? 0 : -1; }
};

// ---- the calls
static std::string dir;
// A file of this thread.  (All of them are in one directory.)
static std::string own_path(const std::string& file) {
    if (file[0] == '/') return dir + file;
    static pid_t made = 0;  // a directory for each process: other workers are not part of the execution
    const std::string d = dir + "/" + std::to_string(getpid());
    if (made != getpid()) { mkdir(d.c_str(), 0700); made = getpid(); }
    return d + "/" + std::to_string(sched::me) + file;
}
static std::string kind_of(const std::exception& e) {
    return std::string(dynamic_cast<const InvalidFormat*>(&e) ? "InvalidFormat" : dynamic_cast<const UnsupportedFeature*>(&e) ? "UnsupportedFeature" : dynamic_cast<const CorruptData*>(&e) ? "CorruptData" : "std::exception") + ": " + e.what();
}
template <class F> std::string guarded(F f) {
    try { return f(); } catch (const std::exception& e) { return kind_of(e); } catch (...) { return "something else thrown"; }
}
struct Call { std::string name; std::function<std::string()> run; };  // returns everything the caller can see
static Call load_call(const std::string& n, const std::string& bytes, size_t piece = 48, bool fails = false) {
    return {"load " + n, [bytes, piece, fails] { In buf(bytes, piece, fails); std::istream in(&buf); return guarded([&] { return image(load_msh(in), true); }); }};
}
static Call load_named(const std::string& n, const std::string& file, const std::string& bytes) {
    return {"load file " + n, [file, bytes] {
        const std::string p = own_path(file);
        if (!bytes.empty()) { FILE* f = fopen(p.c_str(), "wb"); if (!f || fwrite(bytes.data(), 1, bytes.size(), f) != bytes.size() || fclose(f)) return std::string("scratch"); }
        std::string r = guarded([&] { return image(load_msh(p), true); });
        for (size_t k; (k = r.find(p)) != std::string::npos;) r.replace(k, p.size(), "PATH");
        if (!bytes.empty()) unlink(p.c_str());
        return r;
    }};
}
static Call save_call(const std::string& n, const MshSpec& s, size_t limit = size_t(1) << 40) {
    return {"save " + n, [s, limit] {
        const std::string before = image(s, true);
        Out buf(limit); std::ostream out(&buf);
        std::string r = guarded([&] { save_msh(out, s); out.flush(); return std::string("ok"); });
        r += "\n" + std::to_string(out.rdstate()) + "\n" + buf.b;
        if (image(s, true) != before) r = "the specification was changed";
        return r;
    }};
}
static Call save_named(const std::string& n, const std::string& file, const MshSpec& s) {
    return {"save file " + n, [file, s] {
        const std::string p = own_path(file), before = image(s, true);
        std::string r = guarded([&] { save_msh(p, s); return std::string("ok"); });
        for (size_t k; (k = r.find(p)) != std::string::npos;) r.replace(k, p.size(), "PATH");
        r += "\n" + slurp(p);
        unlink(p.c_str());
        if (image(s, true) != before) r = "the specification was changed";
        return r;
    }};
}
static Call validate_call(const std::string& n, const MshSpec& s) {
    return {"validate " + n, [s] { const std::string before = image(s, true); std::string r = guarded([&] { validate_spec(s); return std::string("valid"); }); if (image(s, true) != before) r = "the specification was changed"; return r; }};
}
static Call query(int t) { return {"type " + std::to_string(t), [t] { return guarded([&] { return std::to_string(nodes_per_element(t)); }) + guarded([&] { return std::to_string(get_element_dim(t)); }); }}; }

// The same kind of mesh with other tags, names and values everywhere (what a broken call leaves behind must show in the next).
static MshSpec foreign(MshSpec s) {
    const int far = 5000;
    for (auto& g : s.physical_groups) { g.tag += far; g.name = "foreign " + g.name; }
    auto ent = [&](auto& v) { for (auto& x : v) { x.tag += far; for (auto& t : x.physical_group_tags) t += far; } };
    ent(s.entities.points); ent(s.entities.curves); ent(s.entities.surfaces); ent(s.entities.volumes);
    for (auto& b : s.nodes.entity_blocks) { b.entity_tag += far; for (auto& t : b.tags) t += far; for (auto& x : b.data) x += far; }
    s.nodes.min_node_tag += far; s.nodes.max_node_tag += far;
    for (auto& b : s.elements.entity_blocks) {
        b.entity_tag += far;
        for (auto& t : b.data) t += far;
    }
    s.elements.min_element_tag += far; s.elements.max_element_tag += far;
    for (auto* d : {&s.node_data, &s.element_data, &s.element_node_data}) for (auto& e : *d) {
        for (auto& t : e.header.string_tags) t = "foreign " + t;
        for (auto& t : e.header.real_tags) t += far;
        for (auto& x : e.entries) { x.tag += far; for (auto& y : x.data) y += far; }
    }
    return s;
}
static std::vector<Call> calls(bool reduced) {
    std::vector<Call> v;
    std::vector<std::string> rich_file;
    for (auto& f : mini::formats()) {
        const MshSpec rich = mini::fixed(f, 1, EXT), small = mini::fixed(f, 0, EXT);
        const std::string rb = save_bytes(rich).bytes, fb = save_bytes(foreign(rich)).bytes, sb = save_bytes(small).bytes;
        const std::string n = mini::name(f);
        v.push_back(load_call("rich " + n, rb));
        v.push_back(load_call("cut " + n, fb.substr(0, fb.size() * 3 / 5)));
        v.push_back(save_call("rich " + n, rich));
        if (!reduced) {
            v.push_back(load_call("small " + n, sb, 5));
            v.push_back(save_call("small " + n, small));
            v.push_back(save_call("failing " + n, rich, rb.size() / 2));
            v.push_back(load_call("failing " + n, fb, 16, true));
            MshSpec bad = rich; bad.elements.entity_blocks[0].element_type = 4711;
            v.push_back(save_call("unsupported type " + n, bad));
            v.push_back(validate_call("rich " + n, rich));
            MshSpec w = small;  // other values in the same places
            for (auto& b : w.nodes.entity_blocks) for (auto& x : b.data) x = x * 0.1 - 1e100;
            for (auto* d : {&w.node_data, &w.element_data, &w.element_node_data}) for (auto& e : *d) { for (auto& t : e.header.string_tags) t += "\"other\\"; for (auto& x : e.entries) for (auto& y : x.data) y = -1.0 / 3; }
            v.push_back(save_call("other " + n, w));
            v.push_back(load_call("other " + n, save_bytes(w).bytes));
            // failures inside every section
            for (auto& sec : mini::sections(EXT)) {
                if (std::string(f.version) == "2.2" && (sec == "Entities")) continue;
                MshSpec o = mini::only(foreign(rich), sec);
                if (std::string(f.version) == "2.2") o.entities = foreign(rich).entities;  // (the tags of the elements)
                const std::string b = save_bytes(o).bytes;
                const std::string first = sec == "Both" ? "Nodes" : sec;
                const size_t from = b.find("$" + first), to = b.find("$End" + first);
                if (from == std::string::npos || to == std::string::npos) continue;
                for (size_t part : {2, 4, 6, 7}) v.push_back(load_call("cut in " + sec + " " + std::to_string(part) + " " + n, b.substr(0, from + first.size() + 1 + (to - from - first.size() - 1) * part / 8)));
            }
            for (size_t part = 1; part < 8; part++) if (part != 4) v.push_back(save_call("failing at " + std::to_string(part) + " " + n, foreign(rich), rb.size() * part / 8));
        }
        rich_file.push_back(rb);
    }
    const MshSpec a = mini::fixed({"4.1", 1}, 1, EXT), b = mini::fixed({"2.2", 0}, 1, EXT);
    v.push_back(save_named("a", "-a.msh", a));
    v.push_back(save_named("b", "-b.msh", b));
    v.push_back(load_named("a", "-c.msh", rich_file[0]));
    MshSpec bad = b; bad.elements.num_elements += 1; bad.elements.num_entity_blocks += 3;
    v.push_back(validate_call("wrong", bad));
    v.push_back(load_call("unknown section", "$Foo\n1 2\n$EndFoo\n" + rich_file[2]));
    v.push_back(load_call("hex", "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n1\n0x10 1e400 0 0\n$EndNodes\n"));
    v.push_back(query(4));
    if (reduced) return v;
    v.push_back(load_named("b", "-c.msh", rich_file[3]));
    v.push_back(load_named("missing", "-none.msh", ""));
    v.push_back(save_named("to nowhere", "/x/y.msh", a));
    v.push_back(load_call("open unknown section", rich_file[2] + "$Foo\n1 2\n"));
    v.push_back(load_call("nothing", ""));
    v.push_back(load_call("no header", rich_file[0].substr(5)));
    v.push_back(load_call("version", "$MeshFormat\n3.0 0 8\n$EndMeshFormat\n"));
    v.push_back(load_call("element type", "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Elements\n1\n1 777 2 0 1 1 2\n$EndElements\n"));
    v.push_back(load_call("many", "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n99999999999\n$EndNodes\n"));
    v.push_back(load_call("sparse", "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n3\n2000000000 1 2 3\n7 1 2 3\n1000000 0 0 0\n$EndNodes\n$Elements\n2\n9 1 2 5 6 2000000000 7\n3 15 2 4 8 1000000\n$EndElements\n"));
    v.push_back(query(31)); v.push_back(query(-1)); v.push_back(query(92));
    MshSpec big = a; big.mesh_format.version = "2.2"; big.nodes.entity_blocks[0].tags[0] = size_t(1) << 40;
    v.push_back(save_call("large tag", big));
    MshSpec ver = a; ver.mesh_format.version = "1.0";
    v.push_back(save_call("version", ver));
    return v;
}

// ---- what no call may leave behind
static std::string surroundings(bool deep = false) {
    std::string r;
    r += std::locale().name() + "|" + (setlocale(LC_ALL, nullptr) ? setlocale(LC_ALL, nullptr) : "") + "|" + std::to_string(fegetround()) + "|";
    auto st = [&](std::ios& s) { r += std::to_string(s.flags()) + "," + std::to_string(s.precision()) + "," + std::to_string(s.width()) + "," + std::to_string(static_cast<int>(s.fill())) + "," + s.getloc().name() + "," + std::to_string(reinterpret_cast<uintptr_t>(s.rdbuf())) + "," + std::to_string(reinterpret_cast<uintptr_t>(s.tie())) + "," + std::to_string(s.exceptions()) + "," + std::to_string(s.rdstate()) + ";"; };
    st(std::cerr); st(std::cout); st(std::clog); st(std::cin);
    const int fd = dup(0); r += std::to_string(fd); if (fd >= 0) close(fd);
    char cwd[4096]; if (getcwd(cwd, sizeof cwd)) r += cwd;
    if (deep) {
        for (int sig : {SIGPIPE, SIGFPE, SIGINT, SIGTERM, SIGHUP, SIGXFSZ, SIGCHLD, SIGALRM, SIGUSR1, SIGWINCH}) { struct sigaction a; sigaction(sig, nullptr, &a); r += std::to_string(reinterpret_cast<uintptr_t>(a.sa_handler)) + " "; }
        sigset_t mask; pthread_sigmask(SIG_SETMASK, nullptr, &mask); for (int k = 1; k < 32; k++) r += sigismember(&mask, k) ? '1' : '0';
        const mode_t m = umask(077); umask(m); r += " umask " + std::to_string(m);
        for (char** v = environ; *v; v++) { r += "\n"; r += *v; }
        for (auto what : {RLIMIT_FSIZE, RLIMIT_NOFILE, RLIMIT_STACK}) { struct rlimit l; getrlimit(what, &l); r += " " + std::to_string(l.rlim_cur); }
        r += " random " + std::to_string(rand()); srand(7);
        r += std::ios::sync_with_stdio(true) ? " synchronised" : " not synchronised";
        r += " floating point " + std::to_string(fegetexcept());
#ifdef __SSE__
        r += "," + std::to_string(__builtin_ia32_stmxcsr() & ~0x3fu);
#endif
    }
    r += std::to_string(reinterpret_cast<uintptr_t>(std::get_terminate())) + "," + std::to_string(reinterpret_cast<uintptr_t>(std::get_new_handler()));
    return r;
}
struct Set {
    std::vector<Call> c;
    std::vector<std::string> want;
    explicit Set(bool reduced) : c(calls(reduced)) {
        for (auto& x : c) {  // the result in a process that made no other call
            int fd[2]; if (pipe(fd)) throw Internal("pipe");
            const pid_t p = fork();
            if (p == 0) { sched::reset(); const std::string r = x.run(); for (size_t k = 0; k < r.size();) { const ssize_t n = ::write(fd[1], r.data() + k, r.size() - k); if (n <= 0) _exit(1); k += static_cast<size_t>(n); } _exit(0); }
            close(fd[1]);
            std::string r; char b[65536]; ssize_t n;
            while ((n = ::read(fd[0], b, sizeof b)) > 0) r.append(b, static_cast<size_t>(n));
            close(fd[0]);
            int st; waitpid(p, &st, 0);
            if (st) throw Internal("the isolated call " + x.name + " died");
            want.push_back(r);
        }
    }
};
static std::string brief(const std::string& s) { return show(s.substr(0, 150)); }
static void compare(Ctx& c, const Set& s, size_t i, const std::string& got, const std::string& when) {
    c.traced();
    if (got == s.want[i]) return;
    size_t k = 0; while (k < got.size() && k < s.want[i].size() && got[k] == s.want[i][k]) k++;
    const size_t from = k > 40 ? k - 40 : 0;
    c.fail(s.c[i].name + " " + when + ": its result is not the one it has alone (differs from byte " + std::to_string(k) + "): " + brief(got.substr(from)) + " instead of " + brief(s.want[i].substr(from)));
}

int main(int argc, char** argv) {
    Quiet quiet;
    sched::find_globals("c15-");
    char t[] = "/tmp/mshio-mc-XXXXXX";
    if (!mkdtemp(t)) return 2;
    dir = t;
    struct Gone { pid_t p = getpid(); ~Gone() { if (p == getpid()) { const std::string c = "rm -rf '" + dir + "'"; if (system(c.c_str())) {} } } } gone;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    const Set all(false), few(true);
    auto history = [](Ctx& c, const Set& s, const std::vector<size_t>& h) {
        sched::reset();
        srand(7); surroundings(true);
        const std::string around = surroundings(true);
        std::vector<std::string> got(h.size());
        sched::run({[&] { for (size_t i = 0; i < h.size(); i++) got[i] = s.c[h[i]].run(); }}, 0, 0, nullptr);
        c.step(h.size()); c.evaluated(h.size());
        std::string log;
        for (size_t i = 0; i < h.size(); i++) log += s.c[h[i]].name + "; ";
        c.state(log); c.nontrivial(fnv(log));
        if (c.want_desc) c.describe(log);
        for (size_t i = 0; i < h.size(); i++) compare(c, s, h[i], got[i], "after " + std::to_string(i) + " calls");
        c.check(surroundings(true) == around, "after " + log + " the surroundings differ: " + surroundings(true) + " instead of " + around);
        c.tag(sched::pristine() ? "library storage unchanged" : "library storage changed");
    };
    auto sequences = [&](const std::string& name, const Set& s, size_t depth) {
        e.add({name, [&s, depth, history](Ctx& c) {
            std::vector<size_t> h;
            for (size_t i = 0; i < depth; i++) { const uint32_t k = c.free_choose(static_cast<uint32_t>(s.c.size()) + (i ? 1 : 0)); if (i && !k) break; h.push_back(k - (i ? 1 : 0)); }
            history(c, s, h);
        }, 0});
    };
    sequences("histories", all, th ? 3 : 2);
    sequences("long-histories", few, th ? 5 : 4);
    // the same call many times, then another one
    const size_t reps = th ? 3000 : 300;
    e.add({"repeats", [&](Ctx& c) {
        const size_t a = c.free_choose(static_cast<uint32_t>(all.c.size())), b = c.free_choose(static_cast<uint32_t>(few.c.size()));
        sched::reset();
        const std::string around = surroundings();
        std::vector<std::string> bad(1); size_t at = 0; std::string last;
        sched::run({[&] { for (size_t i = 0; i < reps; i++) { std::string r = all.c[a].run(); if (r != all.want[a]) { bad[0] = r; at = i + 1; break; } } last = few.c[b].run(); }}, 0, 0, nullptr);
        c.step(reps + 1); c.evaluated();
        c.state(all.c[a].name + few.c[b].name); c.nontrivial(fnv(all.c[a].name + few.c[b].name));
        if (c.want_desc) c.describe(all.c[a].name + " x " + std::to_string(reps) + ", " + few.c[b].name);
        if (at) compare(c, all, a, bad[0], "for the " + std::to_string(at) + "th time");
        compare(c, few, b, last, "after " + std::to_string(reps) + " times " + all.c[a].name);
        c.check(surroundings() == around, "the surroundings differ after " + all.c[a].name);
    }, 0, 120});
    // one specification, one stream and one path, edited in place between the calls: nothing may be remembered about an address or a name
    const size_t edits = th ? 4 : 3;
    e.add({"same-objects", [&, edits](Ctx& c) {
        sched::reset();
        srand(7); surroundings(true);
        const std::string around = surroundings(true);
        static MshSpec s; static std::ostringstream out; static std::istringstream in; out.str(""); out.clear();
        static std::map<std::string, std::string> alone;
        const size_t start = c.free_choose(th ? 2 : 1) * 3;
        s = mini::fixed(mini::formats()[start], 0, EXT);
        const std::string p = own_path("-same.msh");
        std::string log = mini::name(mini::formats()[start]) + ": ";
        // result of an operation on copies of the same arguments in a process that made no other call
        auto expect = [&](const std::string& key, const std::function<std::string()>& f) -> const std::string& {
            auto it = alone.find(key);
            if (it != alone.end()) return it->second;
            int fd[2]; if (pipe(fd)) throw Internal("pipe");
            const pid_t q = fork();
            if (q == 0) { const std::string r = f(); for (size_t k = 0; k < r.size();) { const ssize_t n = ::write(fd[1], r.data() + k, r.size() - k); if (n <= 0) _exit(1); k += static_cast<size_t>(n); } _exit(0); }
            close(fd[1]);
            std::string r; char b[65536]; ssize_t n;
            while ((n = ::read(fd[0], b, sizeof b)) > 0) r.append(b, static_cast<size_t>(n));
            close(fd[0]);
            int st; waitpid(q, &st, 0);
            if (st) throw Internal("the isolated call died");
            return alone[key] = r;
        };
        auto put = [&](const std::string& b) { FILE* f = fopen(p.c_str(), "wb"); if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f)) throw Internal("scratch"); const timespec t[2] = {{1000000000, 0}, {1000000000, 0}}; utimensat(AT_FDCWD, p.c_str(), t, 0); };
        for (size_t step = 0; step < edits; step++) {
            const uint32_t edit = c.free_choose(9);
            if (edit == 8) break;
            MshSpec& m = s;
            switch (edit) {
            case 0: break;
            case 1: m.nodes.entity_blocks[0].data[0] += 1; log += "change a coordinate, "; break;
            case 2: std::swap(m.elements.entity_blocks[0].data[1], m.elements.entity_blocks[0].data[2]); log += "turn an element, "; break;
            case 3: if (m.physical_groups.empty()) m.physical_groups.push_back({0, 1, "a"}); m.physical_groups[0].name[0] = m.physical_groups[0].name[0] == 'q' ? 'r' : 'q'; log += "change a name, "; break;
            case 4: m.mesh_format.file_type = 1 - m.mesh_format.file_type; log += "other encoding, "; break;
            case 5: m.mesh_format.version = m.mesh_format.version == "4.1" ? "2.2" : "4.1"; log += "other version, "; break;
            case 6: m.elements.num_elements ^= 1; log += "wrong total or back, "; break;
            default: m.elements.entity_blocks[0].element_type = m.elements.entity_blocks[0].element_type == 99 ? 1 : 99; log += "unsupported type or back, "; break;
            }
            const std::string before = image(m, true);
            auto save_it = [](std::ostream& o, const MshSpec& x) { std::string r = guarded([&] { save_msh(o, x); o.flush(); return std::string("ok"); }); return r + std::to_string(o.rdstate()); };
            const uint32_t op = c.free_choose(5);
            std::string got, key; const std::string* want = nullptr;
            if (op == 0) {
                log += "save; "; key = "S" + before;
                out.str(""); out.clear();
                got = save_it(out, m); got += out.str();
                want = &expect(key, [&] { std::ostringstream o; const MshSpec x = m; std::string r = save_it(o, x); return r + o.str(); });
            } else if (op == 4) {  // after what the stream holds already
                log += "save to the same stream; "; key = "S" + before;
                const std::string held = out.str();
                out.clear(); out.seekp(0, std::ios::end);
                got = save_it(out, m); const std::string now = out.str();
                c.check(now.compare(0, held.size(), held) == 0, log + "what the stream held before was overwritten");
                got += now.substr(held.size());
                want = &expect(key, [&] { std::ostringstream o; const MshSpec x = m; std::string r = save_it(o, x); return r + o.str(); });
            } else if (op == 1) {
                log += "validate; "; key = "V" + before;
                auto f = [](const MshSpec& x) { return guarded([&] { validate_spec(x); return std::string("valid"); }); };
                got = f(m);
                want = &expect(key, [&] { const MshSpec x = m; return f(x); });
            } else if (op == 2) {
                log += "save by name; "; key = "S" + before;
                got = guarded([&] { save_msh(p, m); return std::string("ok"); }) + "0" ;
                if (got == "ok0") got += slurp(p);
                want = &expect(key, [&] { std::ostringstream o; const MshSpec x = m; std::string r = save_it(o, x); return r + o.str(); });
                if (want->compare(0, 2, "ok")) { c.check(got.compare(0, 2, "ok") != 0, log + "the save by name succeeded"); got = *want; }
            } else {
                log += "load what it saves, from the same stream or path; ";
                std::ostringstream o; const std::string saved = save_it(o, m);
                if (saved != "ok0") throw Skip{};
                const std::string b = o.str(); key = "L" + b;
                put(b);
                const std::string named = guarded([&] { return image(load_msh(p), true); });
                in.clear(); in.str(b);
                got = guarded([&] { return image(load_msh(in), true); });
                want = &expect(key, [&] { std::istringstream i(b); return guarded([&] { return image(load_msh(i), true); }); });
                c.check(named == *want, log + "the load by name gives something else than in a fresh process");
            }
            c.step(); c.traced(); c.evaluated();
            c.check(image(m, true) == before, log + "the specification was changed");
            c.check(got == *want, log + "the result is not the one in a fresh process: " + brief(got) + " instead of " + brief(*want));
            c.state(key);
        }
        if (c.want_desc) c.describe(log);
        c.nontrivial(fnv(log));
        unlink(p.c_str());
        c.check(surroundings(true) == around, log + ": the surroundings differ");
        c.tag("same objects");
    }, 0});
    // ---- threads.  `warm`: calls made before, in another thread (what a first call initialises is there)
    auto threads = [](Ctx& c, const Set& s, const std::vector<size_t>& who, bool warm, int mode, uint64_t k) {
        sched::reset();
        const std::string around = surroundings();
        if (warm) sched::run({[&] { for (size_t i : who) s.c[i].run(); }}, 0, 0, nullptr);
        std::vector<std::string> got(who.size());
        std::vector<std::function<void()>> b;
        for (size_t i = 0; i < who.size(); i++) b.push_back([&, i] { got[i] = s.c[who[i]].run(); });
        std::string broken;
        sched::run(b, mode, k, [&](uint32_t n, bool free) -> uint32_t {
            if (!broken.empty()) return 0;
            try { return free ? c.free_choose(n) : c.choose(n); } catch (const std::exception& x) { broken = x.what(); return 0; }
        });
        if (!broken.empty()) throw Internal(broken);
        c.step(who.size()); c.evaluated();
        std::string log; for (size_t i : who) log += s.c[i].name + " | ";
        c.check(!sched::S.deadlock, log + " the calls wait for each other forever");
        if (c.want_desc) c.describe(log + (warm ? "warm" : "cold") + ", mode " + std::to_string(mode) + ", k " + std::to_string(k));
        for (size_t i = 0; i < who.size(); i++) compare(c, s, who[i], got[i], "in thread " + std::to_string(i) + " of " + log + (warm ? "(not the first calls)" : "(first calls)"));
        c.check(surroundings() == around, log + ": the surroundings differ");
        return log;
    };
    // thread 0 interrupted at every memory access and function entry by a complete call
    std::vector<size_t> reps_of;  // calls of every kind, as the interrupting one
    for (size_t i = 0; i < few.c.size(); i++) for (const char* n : {"load rich 4.1 ascii", "save rich 4.1 binary", "load rich 2.2 binary", "save rich 2.2 ascii", "cut 4.1 binary", "save file b", "validate wrong", "hex"}) if (few.c[i].name.find(n) != std::string::npos) reps_of.push_back(i);
    auto interrupted = [&](Ctx& c, bool every) {
        const Set& s = few;
        const size_t a = c.free_choose(static_cast<uint32_t>(s.c.size()));
        const bool warm = c.free_flag();
        size_t b = a;
        if (every) b = c.free_choose(static_cast<uint32_t>(s.c.size()));
        else if (!warm) { const size_t k = c.free_choose(static_cast<uint32_t>(reps_of.size()) + 1); if (k) b = reps_of[k - 1]; }
        static std::map<std::pair<size_t, bool>, uint64_t> lengths;
        uint64_t& n = lengths[{a, warm}];
        if (!n) { threads(c, s, {a}, warm, 1, ~uint64_t(0)); n = std::max<uint64_t>(1, sched::S.count); }
        const uint64_t k = c.free_choose(static_cast<uint32_t>(n)) + 1;
        const std::string log = threads(c, s, {a, b}, warm, 1, k);
        c.state(log + std::to_string(k) + (warm ? "w" : "c")); c.nontrivial(fnv(log + std::to_string(k)));
        c.tag("interrupted");
    };
    e.add({"interrupted", [&](Ctx& c) { interrupted(c, c.thorough); }, 0});
    // switches at stream operations and shared accesses
    auto switched = [&](const std::string& name, size_t n, int bound) {
        e.add({name, [&, n](Ctx& c) {
            const Set& s = few;
            std::vector<size_t> who;
            for (size_t i = 0; i < n; i++) who.push_back((i ? who.back() : 0) + c.free_choose(static_cast<uint32_t>(s.c.size() - (i ? who.back() : 0))));
            const std::string log = threads(c, s, who, false, 2, 0);
            c.state(log); std::string sch = log; for (auto& p : c.trace) sch += static_cast<char>(p.c);
            c.nontrivial(fnv(sch));
            c.tag(sched::S.shared_points ? "shared accesses" : "no shared access");
        }, bound});
    };
    switched("switched", 2, th ? 2 : 1);
    switched("switched-three", 3, th ? 1 : 0);
    // the same under another locale of the process (results do not depend on it, see C14; a call that changes it for a while disturbs the others)
    setenv("LOCPATH", dir.c_str(), 1);
    if (system(("localedef -i de_DE -f UTF-8 '" + dir + "/de_DE.UTF-8' >/dev/null 2>&1").c_str())) {}
    std::locale german = std::locale::classic();
    try { german = std::locale("de_DE.UTF-8"); } catch (const std::exception&) {}
    struct Under { std::locale old = std::locale(); explicit Under(const std::locale& l) { std::locale::global(l); } ~Under() { std::locale::global(old); setlocale(LC_ALL, "C"); } };
    e.add({"locale-interrupted", [&](Ctx& c) { Under u(german); const size_t a = c.free_choose(static_cast<uint32_t>(reps_of.size())), b = c.free_choose(static_cast<uint32_t>(reps_of.size()));
        static std::map<size_t, uint64_t> lengths;
        uint64_t& n = lengths[a];
        if (!n) { threads(c, few, {reps_of[a]}, false, 1, ~uint64_t(0)); n = std::max<uint64_t>(1, sched::S.count); }
        const uint64_t k = c.free_choose(static_cast<uint32_t>(n)) + 1;
        const std::string log = threads(c, few, {reps_of[a], reps_of[b]}, false, 1, k);
        c.state(log + std::to_string(k)); c.nontrivial(fnv(log + std::to_string(k)));
        c.tag(german == std::locale::classic() ? "no other locale" : "interrupted");
    }, 0});
    e.add({"locale-switched", [&](Ctx& c) { Under u(german);
        std::vector<size_t> who; for (int i = 0; i < 2; i++) who.push_back(reps_of[c.free_choose(static_cast<uint32_t>(reps_of.size()))]);
        const std::string log = threads(c, few, who, false, 2, 0);
        c.state(log); std::string sch = log; for (auto& p : c.trace) sch += static_cast<char>(p.c);
        c.nontrivial(fnv(sch)); c.tag("switched");
    }, th ? 2 : 1});
    // conflicting accesses that nothing orders
    e.add({"races", [&](Ctx& c) {
        const Set& s = all;
        const size_t a = c.free_choose(static_cast<uint32_t>(s.c.size())), b = c.thorough ? c.free_choose(static_cast<uint32_t>(s.c.size())) : a + c.free_choose(static_cast<uint32_t>(s.c.size() - a));
        const bool warm = c.free_flag();
        const std::string log = threads(c, s, {a, b}, warm, 3, 0);
        c.state(log); c.nontrivial(fnv(log));
        c.check(sched::S.race.empty(), log + " " + sched::S.race);
        c.check(sched::S.tracked > 0 || s.want[a].size() < 400, "no access was tracked in " + log);
        c.tag(sched::pristine() ? "library storage unchanged" : "library storage changed");
    }, 0});
    return run_main(e);
}
