// C16: the file name overloads against the stream overloads and a model of the file system.
#define ALLOC_COUNT
#include "alloc_count.h"
#include "sysio.h"
#include "mini.h"
#include <sys/stat.h>
#include <dirent.h>
#include <cstring>
#include <set>
#include <thread>
#include <fcntl.h>
using namespace mc; using namespace sp; using namespace gen;
#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool EXT = true;
#else
constexpr bool EXT = false;
#endif

// every call closes what it opened: the lowest free descriptor is the same before and after
static int free_fd() { const int d = dup(STDERR_FILENO); if (d < 0) throw Internal("dup"); close(d); return d; }
struct Descriptors {
    const char* what; std::string& error; bool& failed; int before = free_fd();
    ~Descriptors() { if (free_fd() != before) { failed = true; error = std::string(what) + " left a file open"; } }
};
static bool g_left_open = false;
static std::string g_left_what;
static void no_file_left_open(Ctx& c) { if (g_left_open) { g_left_open = false; c.fail(g_left_what); } }
static Loaded load_named(const std::string& p) {
    Loaded r;
    Descriptors d{"loading by name", g_left_what, g_left_open};
    try { r.spec = load_msh(p); r.ok = true; r.kind = "ok"; }
    catch (const InvalidFormat& e) { r.error = e.what(); r.kind = "InvalidFormat"; }
    catch (const UnsupportedFeature& e) { r.error = e.what(); r.kind = "UnsupportedFeature"; }
    catch (const CorruptData& e) { r.error = e.what(); r.kind = "CorruptData"; }
    catch (const std::exception& e) { r.error = e.what(); r.kind = "std::exception"; }
    return r;
}
static Saved save_named(const std::string& p, const MshSpec& s) {
    Saved r;
    Descriptors d{"saving by name", g_left_what, g_left_open};
    try { save_msh(p, s); r.ok = true; r.kind = "ok"; }
    catch (const InvalidFormat& e) { r.error = e.what(); r.kind = "InvalidFormat"; }
    catch (const UnsupportedFeature& e) { r.error = e.what(); r.kind = "UnsupportedFeature"; }
    catch (const CorruptData& e) { r.error = e.what(); r.kind = "CorruptData"; }
    catch (const std::exception& e) { r.error = e.what(); r.kind = "std::exception"; }
    return r;
}
static void put(const std::string& path, const std::string& b) { FILE* fp = fopen(path.c_str(), "wb"); if (!fp || fwrite(b.data(), 1, b.size(), fp) != b.size() || fclose(fp)) throw Internal("scratch file " + path); }
static std::set<std::string> listing(const std::string& dir) {
    std::set<std::string> r;
    DIR* d = opendir(dir.c_str());
    if (!d) throw Internal("opendir");
    while (const dirent* x = readdir(d)) if (strcmp(x->d_name, ".") && strcmp(x->d_name, "..")) r.insert(x->d_name);
    closedir(d);
    return r;
}
static bool exists(const std::string& p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
static void same_load(Ctx& c, const std::string& path, const std::string& bytes, const std::string& what) {
    const Loaded want = load_bytes(bytes), got = load_named(path);
    c.step(2);
    no_file_left_open(c);
    c.check(want.ok == got.ok, what + ": by name " + (got.ok ? "accepted" : "refused (" + got.error + ")") + ", as a stream " + (want.ok ? "accepted" : "refused (" + want.error + ")"));
    if (want.ok) { const std::string d = diff(want.spec, got.spec); c.check(d.empty(), what + ": by name differs: " + d); }
    else c.check(want.kind == got.kind, what + ": by name throws " + got.kind + ", as a stream " + want.kind);
    c.check(slurp(path) == bytes, what + ": loading modified its input");
}
static void same_save(Ctx& c, const std::string& path, const MshSpec& s, const std::string& what) {
    const Saved want = save_bytes(s), got = save_named(path, s);
    c.step(2);
    no_file_left_open(c);
    c.check(want.ok == got.ok, what + ": by name " + (got.ok ? "accepted" : "refused (" + got.error + ")") + ", as a stream " + (want.ok ? "accepted" : "refused"));
    if (want.ok) {
        const std::string b = slurp(path);
        if (b != want.bytes) c.fail(what + ": the file holds " + std::to_string(b.size()) + " bytes, the stream " + std::to_string(want.bytes.size()) + (b.size() == want.bytes.size() ? ", and other ones" : ""));
    } else c.check(want.kind == got.kind, what + ": by name throws " + got.kind + ", as a stream " + want.kind);
}

struct Item { std::string name; MshSpec spec; bool refused = false; };
static std::vector<Item> items() {
    std::vector<Item> v;
    v.push_back({"rich 4.1 ascii", mini::fixed({"4.1", 0}, 1, EXT)});
    v.push_back({"empty", MshSpec()});
    v.push_back({"small 4.1 binary", mini::fixed({"4.1", 1}, 0, EXT)});
    v.push_back({"rich 2.2 binary", mini::fixed({"2.2", 1}, 1, EXT)});
    v.push_back({"small 2.2 ascii", mini::only(mini::fixed({"2.2", 0}, 0, EXT), "Nodes")});
    { Item i{"refused late", mini::fixed({"4.1", 1}, 1, EXT), true}; i.spec.elements.entity_blocks.back().element_type = 99; v.push_back(i); }
    return v;
}

int main(int argc, char** argv) {
    Quiet quiet;
    sysio::Scratch scratch;
    chmod(scratch.dir.c_str(), 0711);
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    static const std::vector<Item> all = items();

    // every sequence of operations on two paths; after each, both files are compared with the model
    const size_t depth = th ? 5 : 4;
    e.add({"histories", [&, depth](Ctx& c) {
        const std::string dir = scratch.file("histories"), path[2] = {dir + "/a.msh", dir + "/b.msh"};
        if (mkdir(dir.c_str(), 0700) && errno != EEXIST) throw Internal("mkdir");
        struct M { bool there = false; std::string bytes; } m[2];
        for (auto& p : path) unlink(p.c_str());
        std::string log, key;
        for (size_t step = 0; step < depth; step++) {
            // second path only offers some of the operations
            const uint32_t k = c.free_choose(15);
            if (k == 0) break;
            const size_t which = k <= 9 ? 0 : 1;
            const uint32_t op = k <= 9 ? k : (const uint32_t[]){1, 3, 7, 8, 9}[k - 10];
            const std::string& p = path[which];
            M& f = m[which];
            const std::string tag = std::string(which ? "b" : "a");
            if (op <= 6) {
                const Item& it = all[op - 1];
                log += "save " + it.name + " to " + tag + "; ";
                same_save(c, p, it.spec, log);
                if (it.refused) { f.there = exists(p); f.bytes = f.there ? slurp(p) : ""; }  // a refused save may leave anything
                else { f.there = true; f.bytes = save_bytes(it.spec).bytes; }
            } else if (op == 7) {
                log += "load " + tag + "; ";
                if (f.there) same_load(c, p, f.bytes, log);
                else { const bool loaded = load_named(p).ok; no_file_left_open(c); c.check(!loaded, log + "a missing file was loaded"); c.step(); c.check(!exists(p), log + "loading created the file"); }
            } else if (op == 8) {
                log += "remove " + tag + "; ";
                unlink(p.c_str()); f = M();
            } else {
                log += "fill " + tag + " with other content; ";
                f.there = true; f.bytes = std::string(20000, 'x'); put(p, f.bytes);
            }
            c.evaluated();
            for (auto& x : listing(dir)) c.check(x == "a.msh" || x == "b.msh", log + "a file " + show(x) + " was left behind");
            for (int q = 0; q < 2; q++) {
                c.check(exists(path[q]) == m[q].there, log + (m[q].there ? "a file disappeared" : "a file appeared"));
                if (m[q].there) c.check(slurp(path[q]) == m[q].bytes, log + "a file holds other content than the model");
                key = std::to_string(m[0].there) + m[0].bytes + "|" + std::to_string(m[1].there) + m[1].bytes;
            }
            c.state(key);
        }
        if (c.want_desc) c.describe(log);
        c.nontrivial(fnv(log));
        c.traced(); c.tag("history");
        for (auto& p : path) unlink(p.c_str());
        rmdir(dir.c_str());
    }, 0});
    // every size of previous content against every kind of new content
    e.add({"replace", [&](Ctx& c) {
        const Item& it = c.free_of(all);
        if (it.refused) throw Skip{};
        const std::string full = save_bytes(it.spec).bytes, p = scratch.file();
        std::vector<size_t> sizes;
        for (size_t k = 0; k <= full.size() + 40; k++) sizes.push_back(k);
        for (size_t k = 1; k <= (1u << 20); k *= 2) for (size_t d : {0, 1}) sizes.push_back(k + d);
        const size_t n = c.free_of(sizes);
        put(p, std::string(n, '$'));
        same_save(c, p, it.spec, "save over " + std::to_string(n) + " bytes");
        same_load(c, p, full, "load after that");
        c.evaluated(); c.state(fnv(full, n)); c.nontrivial(fnv(full, n)); c.traced(); c.tag("replaced");
        unlink(p.c_str());
    }, 0});
    // all lengths of files around the sizes of buffers
    e.add({"sizes", [&](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        Opt o; o.version = f.version; o.file_type = f.type; o.ext = EXT; o.vary_values = o.vary_counts = false;
        o.target = "physical_groups.name";
        const MshSpec zero = [&] { Opt q = o; q.length = 0; return Gen(c, q).spec(); }();
        const size_t base = save_bytes(zero).bytes.size();
        const size_t around = c.free_of<size_t>({4096, 8191, 16382, 32768, 65536, 131072});
        const size_t d = c.free_choose(c.thorough ? 400 : 24);
        const size_t centre = c.thorough ? 200 : 12;
        if (around + d < base + centre) throw Skip{};
        o.length = around + d - centre - base;
        const MshSpec s = Gen(c, o).spec();
        const std::string p = scratch.file();
        if (c.want_desc) c.describe("a file of about " + std::to_string(around + d - centre) + " bytes");
        same_save(c, p, s, "save of about " + std::to_string(around + d - centre) + " bytes");
        same_load(c, p, save_bytes(s).bytes, "load of about " + std::to_string(around + d - centre) + " bytes");
        c.evaluated(); c.state(fnv(mini::name(f), around * 1000 + d)); c.nontrivial(fnv(mini::name(f), around * 1000 + d)); c.traced(); c.tag("long file");
        unlink(p.c_str());
    }, 0, 60});
    e.add({"long", [&](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        Opt o; o.version = f.version; o.file_type = f.type;
        o = sweep_opt(c, o, EXT);
        if (!c.thorough && !(o.length == 1000 || o.length == 4096 || o.length == 65536)) throw Skip{};
        const MshSpec s = Gen(c, o).spec();
        const std::string p = scratch.file();
        same_save(c, p, s, "save of " + o.target + " x " + std::to_string(o.length));
        same_load(c, p, save_bytes(s).bytes, "load of " + o.target + " x " + std::to_string(o.length));
        c.evaluated(); const uint64_t h = fnv(o.target + mini::name(f), o.length); c.state(h); c.nontrivial(h); c.traced(); c.tag("long file");
        unlink(p.c_str());
    }, 0, 60});
    // damaged files: the same refusal
    e.add({"damaged", [&](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        std::string b = save_bytes(mini::fixed(f, static_cast<int>(c.free_choose(2)), EXT)).bytes;
        const size_t at = c.free_choose(static_cast<uint32_t>(b.size()) + 1);
        switch (c.free_choose(4)) {
        case 0: b.resize(at); break;
        case 1: if (at == b.size()) throw Skip{}; b[at] = '$'; break;
        case 2: if (at == b.size()) throw Skip{}; b[at] = static_cast<char>(b[at] ^ 0x80); break;
        default: if (at % 7) throw Skip{}; b.insert(at, c.free_of<std::string>({"\x1a", "\r", std::string(1, '\0'), "\xff", "\n"})); break;
        }
        const std::string p = scratch.file();
        put(p, b);
        if (c.want_desc) c.describe("by name and as a stream:\n" + hexdump(b, 4000));
        { alloc::Cap cap(16u << 20); same_load(c, p, b, "damaged file"); }
        c.evaluated(); c.state(b); c.nontrivial(fnv(b)); c.traced(); c.tag("damaged file");
        unlink(p.c_str());
    }, 0});
    // names of every kind
    e.add({"names", [&](Ctx& c) {
        static const std::vector<std::string> names = {"x", "a b.msh", " lead", "tail ", "-", "-x.msh", "\xc3\xa4\xe2\x82\xac.msh", "quote'\".msh", "new\nline", "back\\slash", "%s%n", "$HOME", "~", "*", "a.b.c", ".hidden", "x.MSH", "x.gz", std::string(200, 'n'), "\xff\xfe", "con", "a:b"};
        const std::string dir = scratch.file("dir");
        const std::string name = c.free_of(names);
        const uint32_t how = c.free_choose(5);
        const Item& it = c.free_of(all);
        if (mkdir(dir.c_str(), 0700) && errno != EEXIST) throw Internal("mkdir");
        const std::string real = dir + "/" + name;
        std::string p = real;
        const int cwd = open(".", O_RDONLY | O_DIRECTORY);
        struct Back { int fd; ~Back() { if (fchdir(fd)) {} close(fd); } } back{cwd};
        if (how == 1) { if (chdir(dir.c_str())) throw Internal("chdir"); p = name; }
        if (how == 2) { if (chdir(dir.c_str())) throw Internal("chdir"); p = "./" + name; }
        if (how == 3) { p = dir + "/../" + dir.substr(dir.rfind('/') + 1) + "//" + name; }
        if (how == 4) { p = dir + "/link"; unlink(p.c_str()); if (symlink(real.c_str(), p.c_str())) throw Internal("symlink"); }
        if (c.want_desc) c.describe("file name " + show(p) + " for " + it.name);
        same_save(c, p, it.spec, "save to " + show(p));
        if (!it.refused) { c.check(slurp(real) == save_bytes(it.spec).bytes, "save to " + show(p) + " wrote elsewhere"); same_load(c, p, slurp(real), "load from " + show(p)); }
        for (auto& x : listing(dir)) c.check(x == name || (how == 4 && x == "link"), "a file " + show(x) + " was left behind by a save to " + show(p));
        c.evaluated(); c.state(fnv(name, how * 16 + it.name.size())); c.nontrivial(fnv(name, how * 16 + it.name.size())); c.traced(); c.tag("name");
        unlink(real.c_str()); if (how == 4) unlink(p.c_str());
        rmdir(dir.c_str());
    }, 0});
    // pipes and the like: nothing but the bytes counts
    e.add({"special", [&](Ctx& c) {
        const Item& it = c.free_of(all);
        const uint32_t how = c.free_choose(8);
        const std::string want = it.refused ? "" : save_bytes(it.spec).bytes, p = scratch.file("special");
        if (c.want_desc) c.describe("special file, kind " + std::to_string(how) + ", " + it.name);
        auto in_thread = [](auto f) { return std::thread(f); };
        auto check_load = [&](const Loaded& l, const std::string& what) {
            no_file_left_open(c);
            c.check(l.ok, what + " is refused: " + l.error);
            const std::string d = diff(load_bytes(want).spec, l.spec);
            c.check(d.empty(), what + " gives something else: " + d);
        };
        auto drain = [](int fd) { std::string r; char b[4096]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) r.append(b, static_cast<size_t>(n)); return r; };
        auto feed = [](int fd, const std::string& b) { for (size_t k = 0; k < b.size();) { const ssize_t n = ::write(fd, b.data() + k, b.size() - k); if (n <= 0) break; k += static_cast<size_t>(n); } };
        c.step();
        if (how < 2) {          // an anonymous pipe
            int fd[2]; if (pipe(fd)) throw Internal("pipe");
            const std::string name = "/dev/fd/" + std::to_string(fd[how]);
            if (how == 0) {
                if (it.refused) { close(fd[0]); close(fd[1]); throw Skip{}; }
                std::thread t = in_thread([&] { feed(fd[1], want); close(fd[1]); });
                Loaded l;  // (the writer closes its end meanwhile: descriptors are not compared)
                try { l.spec = load_msh(name); l.ok = true; } catch (const std::exception& x) { l.error = x.what(); }
                t.join(); close(fd[0]);
                check_load(l, "a pipe");
            } else {
                std::string got;
                const int r = fd[0];
                std::thread t = in_thread([&got, r, &drain] { got = drain(r); });
                const Saved s = save_named(name, it.spec);
                close(fd[1]); t.join(); close(fd[0]);
                no_file_left_open(c);
                c.check(s.ok == !it.refused, "saving to a pipe: " + s.error);
                if (s.ok) c.check(got == want, "saving to a pipe gives other bytes");
            }
        } else if (how < 4) {   // a named one
            unlink(p.c_str());
            if (mkfifo(p.c_str(), 0600)) throw Internal("mkfifo");
            if (how == 2) {
                if (it.refused) { unlink(p.c_str()); throw Skip{}; }
                std::thread t = in_thread([&] { const int fd = open(p.c_str(), O_WRONLY); feed(fd, want); close(fd); });
                Loaded l;
                try { l.spec = load_msh(p); l.ok = true; } catch (const std::exception& x) { l.error = x.what(); }
                t.join(); unlink(p.c_str());
                check_load(l, "a named pipe");
            } else {
                std::string got;
                std::thread t = in_thread([&] { const int fd = open(p.c_str(), O_RDONLY); got = drain(fd); close(fd); });
                Saved s;
                try { save_msh(p, it.spec); s.ok = true; } catch (const std::exception& x) { s.error = x.what(); }
                t.join(); unlink(p.c_str());
                c.check(s.ok == !it.refused, "saving to a named pipe: " + s.error);
                if (s.ok) c.check(got == want, "saving to a named pipe gives other bytes");
            }
        } else {                // a file that may be read only, one that may be written only (as another user), a link to it, one with several names
            if (it.refused) throw Skip{};
            const std::string q = p + "-other";
            unlink(p.c_str()); unlink(q.c_str());
            put(p, how == 5 ? std::string("old content") : want);
            std::string name = p;
            if (how == 6) { if (symlink(p.c_str(), q.c_str())) throw Internal("symlink"); name = q; }
            if (how == 7) { if (link(p.c_str(), q.c_str())) throw Internal("link"); name = q; }
            struct Drop { bool on; explicit Drop(bool d) : on(d) { if (on && seteuid(65534)) on = false; } ~Drop() { if (on && seteuid(0)) {} } };
            if (how == 5) {
                chmod(p.c_str(), 0222);
                Saved s; { Drop d(geteuid() == 0); s = save_named(p, it.spec); }
                no_file_left_open(c);
                c.check(s.ok, "saving to a file that may only be written: " + s.error);
                chmod(p.c_str(), 0600);
                c.check(slurp(p) == want, "saving to a file that may only be written gives other bytes");
            } else {
                chmod(p.c_str(), 0444);
                Loaded l; { Drop d(geteuid() == 0); l = load_named(name); }
                check_load(l, "a file that may only be read");
                chmod(p.c_str(), 0600);
            }
            unlink(p.c_str()); unlink(q.c_str());
        }
        c.evaluated(); c.state(fnv(it.name, how)); c.nontrivial(fnv(it.name, how)); c.traced(); c.tag("special file");
    }, 0, 15});
    // what cannot be opened raises an exception and is left alone
    e.add({"closed", [&](Ctx& c) {
        const uint32_t how = c.free_choose(10);
        const Item& it = c.free_of(all);
        const std::string base = scratch.file("closed"), content = save_bytes(all[0].spec).bytes;
        std::string p = base;
        bool save = true, load = true, must_exist = false;
        bool drop = false;
        switch (how) {
        case 0: p = ""; break;
        case 1: p = base + "/missing/dir/x"; break;
        case 2: mkdir(base.c_str(), 0700); break;                                   // a directory
        case 3: put(base, content); p = base + "/below-a-file"; break;
        case 4: put(base, content); chmod(base.c_str(), 0); drop = must_exist = true; break;   // no rights
        case 5: put(base, content); chmod(base.c_str(), 0444); drop = must_exist = true; load = false; break;
        case 6: p = scratch.dir + "/new-file-" + std::to_string(getpid()); drop = true; break;  // directory not writable
        case 7: if (symlink((base + "-nowhere/x").c_str(), base.c_str())) {} break;
        case 8: p = scratch.dir + "/" + std::string(300, 'n'); break;
        default: if (symlink(base.c_str(), base.c_str())) {} break;                  // a loop
        }
        if (drop && geteuid() != 0) throw Skip{};
        struct Drop { bool on; explicit Drop(bool d) : on(d) { if (on && seteuid(65534)) on = false; } ~Drop() { if (on && seteuid(0)) {} } };
        Loaded l; Saved s;
        {
            Drop d(drop);
            if (drop && !d.on) throw Skip{};
            if (load) { l = load_named(p); c.step(); }
            if (save) { s = save_named(p, it.spec); c.step(); }
        }
        if (c.want_desc) c.describe("destination kind " + std::to_string(how) + ", " + it.name);
        const std::string now = must_exist ? slurp(base) : "";
        chmod(base.c_str(), 0600); unlink(base.c_str()); rmdir(base.c_str());
        no_file_left_open(c);
        c.check(!load || !l.ok, "loading from something that cannot be read succeeded (kind " + std::to_string(how) + ")");
        c.check(!save || !s.ok, "saving to something that cannot be written succeeded (kind " + std::to_string(how) + ")");
        if (must_exist) c.check(now == content, "a file that cannot be written changed");
        c.evaluated(); c.state(fnv(it.name, how)); c.nontrivial(fnv(it.name, how)); c.traced(); c.tag("exception");
    }, 0});
    return run_main(e);
}
