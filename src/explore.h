// Stateless model checking core: exhaustive, deviation-bounded enumeration of choices.
//
// A check registers one or more "spaces".  A space is a function that is run again and again; each
// time it asks for choices.  The explorer replays a prefix of choices and takes option 0 for
// every later one, then enumerates every alternative with at most `bound` non-zero (deviating)
// choices; bound < 0 means the full tree.  "Free" choices are enumerated without being counted.
//
// Work is split over forked workers.  A worker stores the choice prefix it is about to execute in
// shared memory, so a crash, a sanitizer report or a hang is attributed to an execution; that
// execution is run again alone, in a new process, before it is reported.
#pragma once
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

using Prefix = std::vector<uint32_t>;

struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };
struct Internal : std::runtime_error { using std::runtime_error::runtime_error; };  // harness error
struct Skip {};  // this execution is outside the space (its sub-tree is still explored)

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
uint64_t fnv(const char*, uint64_t) = delete;  // a literal: make it a std::string
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

struct Point { uint32_t n; uint32_t c; bool free; };

class Ctx {
public:
    // ---- choices
    uint32_t choose(uint32_t n) { return pick(n, false); }
    uint32_t free_choose(uint32_t n) { return pick(n, true); }
    template <class T> T of(std::initializer_list<T> l) { return *(l.begin() + choose(static_cast<uint32_t>(l.size()))); }
    template <class T> const T& of(const std::vector<T>& l) { return l[choose(static_cast<uint32_t>(l.size()))]; }
    template <class T> T free_of(std::initializer_list<T> l) { return *(l.begin() + free_choose(static_cast<uint32_t>(l.size()))); }
    template <class T> const T& free_of(const std::vector<T>& l) { return l[free_choose(static_cast<uint32_t>(l.size()))]; }
    bool flag() { return choose(2) == 1; }
    bool free_flag() { return free_choose(2) == 1; }
    // ---- measurements
    void step(uint64_t k = 1) { steps += k; }               // calls into the real code
    void state(uint64_t h) { states.insert(h); }            // a distinct state / input by canonical hash
    void state(const std::string& s) { states.insert(fnv(s)); }
    void nontrivial(uint64_t h) { interesting.insert(h); }
    void tag(const std::string& t) { tags[t]++; }           // outcome classes seen
    void traced() { validated++; }                          // a model run compared with the real code
    void evaluated(uint64_t k = 1) { evaluations += k; }
    void describe(const std::string& d) { desc = d; }
    bool want_desc = false;
    [[noreturn]] void fail(const std::string& m) { throw Violation(m); }
    void check(bool b, const std::string& m) { if (!b) fail(m); }
    // A violation that the findings file may list under this identifier; a listed one is counted, not reported.
    static std::set<std::string>& listed() { static std::set<std::string> l; return l; }
    void known(const std::string& id, const std::string& m) {
        if (!listed().count(id)) fail(m + " {" + id + "}");
        tags["known " + id]++;
    }
    bool thorough = false;
    uint64_t seed = 1;

    // ---- engine side
    Prefix prefix;
    std::vector<Point> trace;
    std::string desc;
    uint64_t steps = 0, validated = 0, evaluations = 0, executions = 0, points = 0;
    std::unordered_set<uint64_t> states, interesting;
    std::map<std::string, uint64_t> tags;
    void begin(const Prefix& p) { prefix = p; trace.clear(); desc.clear(); }

private:
    uint32_t pick(uint32_t n, bool free) {
        if (n == 0) throw Internal("choice among no options");
        uint32_t c = 0;
        if (trace.size() < prefix.size()) {
            c = prefix[trace.size()];
            if (c >= n) throw Internal("replay diverged: choice " + std::to_string(trace.size()) + " = " + std::to_string(c) + " of " + std::to_string(n));
        }
        trace.push_back({n, c, free});
        return c;
    }
};

struct Space {
    std::string name;
    std::function<void(Ctx&)> body;
    int bound;           // deviation bound (<0: full tree)
    int timeout_s = 30;  // per execution
};

struct Options {
    std::string property, out, replay_dir, replay, tier = "quick", only;
    int jobs = 8;
    double deadline_s = 600;
    uint64_t seed = 1;
};

inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o + "\"";
}

constexpr size_t MAXP = 16384;
constexpr size_t MAXR = 1 << 20;
struct Slot {
    volatile uint64_t beat;       // executions started
    volatile uint64_t done;       // executions finished
    volatile uint32_t len;
    uint32_t choices[MAXP];
    volatile uint32_t nroots;     // sub-trees explored so far by this worker, in order
    uint32_t roots[MAXR];
};
struct Shared {
    volatile int stop;
    volatile uint64_t next_item;  // dynamic distribution of the roots of sub-trees
};

class Explorer {
public:
    Explorer(Options o) : opt(std::move(o)) {}
    void add(Space s) { spaces.push_back(std::move(s)); }
    int run();
    Options opt;
    std::vector<std::string> notes;
    std::string rule;

private:
    struct Result {
        uint64_t executions = 0, steps = 0, validated = 0, evaluations = 0, states = 0, interesting = 0, points = 0;
        std::map<std::string, uint64_t> tags;
        std::vector<std::string> samples;
        bool complete = true;
        int bound = 0;
    };
    std::vector<Space> spaces;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    Ctx ctx;

    double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    static uint32_t deviations(const std::vector<Point>& t, size_t n) {
        uint32_t d = 0;
        for (size_t i = 0; i < n; i++) d += (t[i].c != 0 && !t[i].free);
        return d;
    }
    // Runs one execution; returns the violation message or "".
    static std::string execute(Ctx& c, const Space& s, const Prefix& p) {
        c.begin(p);
        c.executions++;
        std::string msg;
        try {
            s.body(c);
        } catch (const Violation& v) {
            msg = v.what();
            if (msg.empty()) msg = "violation";
        } catch (const Internal&) {
            throw;
        } catch (const Skip&) {
        } catch (const std::exception& e) {
            msg = std::string("unexpected exception: ") + e.what();
        }
        c.points += c.trace.size();
        if (c.trace.size() < p.size() && msg.empty()) throw Internal("replay diverged: fewer choices than the prefix");
        return msg;
    }
    template <class F> static void children(const Ctx& c, size_t from, int bound, F f) {
        const std::vector<Point> t = c.trace;
        Prefix pre;
        for (size_t i = 0; i < from && i < t.size(); i++) pre.push_back(t[i].c);
        for (size_t i = from; i < t.size(); i++) {
            const uint32_t dev = deviations(t, i);
            if (t[i].free || bound < 0 || dev + 1 <= static_cast<uint32_t>(bound))
                for (uint32_t a = 1; a < t[i].n; a++) { pre.push_back(a); f(pre); pre.pop_back(); }
            pre.push_back(t[i].c);
        }
    }
    static void put(Slot* slot, const Prefix& p) {
        if (p.size() > MAXP) throw Internal("prefix too long");
        slot->len = 0;
        if (!p.empty()) memcpy(slot->choices, p.data(), p.size() * sizeof(uint32_t));
        slot->len = static_cast<uint32_t>(p.size());
        slot->beat = slot->beat + 1;
    }
    static void dump(const std::string& file, const Ctx& c, const std::vector<std::string>& samples, bool complete) {
        std::ofstream f(file, std::ios::binary);
        f << c.executions << ' ' << c.steps << ' ' << c.validated << ' ' << c.evaluations << ' ' << c.points << ' ' << complete << ' ' << c.tags.size() << ' ' << samples.size() << ' ' << c.states.size() << ' ' << c.interesting.size() << '\n';
        for (auto& t : c.tags) { f << t.second << ' ' << t.first.size() << ' ' << t.first << '\n'; }
        for (auto& s : samples) { f << s.size() << ' ' << s << '\n'; }
        for (uint64_t h : c.states) f.write(reinterpret_cast<const char*>(&h), 8);
        for (uint64_t h : c.interesting) f.write(reinterpret_cast<const char*>(&h), 8);
    }
    // The executions a process performs before the failing one.  Empty: the failing execution alone.
    struct History { bool bfs = false; std::vector<Prefix> roots; };
    bool explore_space(const Space& s, Result& r, std::string& vmsg, Prefix& vprefix, History& hist);
    std::string run_isolated(const std::function<std::string(Ctx&)>& f, int limit_s, bool& violated);
    std::string run_alone(const Space& s, const Prefix& p, int limit_s, bool& violated) {
        return run_isolated([&](Ctx& c) { return execute(c, s, p); }, limit_s, violated);
    }
    std::string run_history(const Space& s, const History& h, int limit_s, bool& violated) {
        const size_t want = breadth();
        return run_isolated([&](Ctx& c) {
            std::string m;
            if (h.bfs) bfs(c, s, want, [&](const Prefix& p) { m = execute(c, s, p); return m.empty(); });
            for (auto& r : h.roots) {
                if (!m.empty()) break;
                dfs(c, s, r, [&](const Prefix& p) { m = execute(c, s, p); return m.empty(); });
            }
            return m;
        }, limit_s, violated);
    }
    size_t breadth() const { return static_cast<size_t>(opt.jobs) * 400; }
    // both return false when `one` did
    template <class F> static bool bfs(Ctx& c, const Space& s, size_t want, F one, std::deque<Prefix>* rest = nullptr) {
        const auto start = std::chrono::steady_clock::now();  // slow executions: hand over early
        // Shortest prefixes first: their sub-trees are the largest.
        std::map<size_t, std::deque<Prefix>> level;
        level[0].push_back(Prefix{});
        size_t waiting = 1;
        bool ok = true;
        while (ok && waiting && c.executions < want * 4 && (waiting < want || (c.executions < 64 && waiting < 200000))) {
            auto first = level.begin();
            Prefix p = std::move(first->second.front()); first->second.pop_front(); waiting--;
            if (first->second.empty()) level.erase(first);
            if (!one(p)) { ok = false; break; }
            children(c, p.size(), s.bound, [&](const Prefix& k) { level[k.size()].push_back(k); waiting++; });
            if (rest && waiting >= 32 && std::chrono::steady_clock::now() - start > std::chrono::milliseconds(300)) break;
        }
        if (rest) for (auto& l : level) for (auto& p : l.second) rest->push_back(std::move(p));
        return ok;
    }
    template <class F> static bool dfs(Ctx& c, const Space& s, const Prefix& root, F one) {
        std::vector<Prefix> stack{root};
        while (!stack.empty()) {
            Prefix p = std::move(stack.back()); stack.pop_back();
            if (!one(p)) return false;
            const size_t base = stack.size();
            children(c, p.size(), s.bound, [&](const Prefix& kk) { stack.push_back(kk); });
            std::reverse(stack.begin() + static_cast<long>(base), stack.end());
        }
        return true;
    }
    void shrink(const Space& s, Prefix& p, std::string& msg);
    void describe_case(const Space& s, const Prefix& p, std::string& d);
};

inline std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream b; b << f.rdbuf(); return b.str(); }

// Runs executions in a forked child.  Sets `violated`; returns the message.
inline std::string Explorer::run_isolated(const std::function<std::string(Ctx&)>& body, int limit_s, bool& violated) {
    int fd[2];
    if (pipe(fd)) throw Internal("pipe");
    char tmpl[] = "/tmp/mc-err-XXXXXX";
    int ef = mkstemp(tmpl);
    fflush(stdout); std::cout.flush();
    pid_t pid = fork();
    if (pid < 0) throw Internal("fork");
    if (pid == 0) {
        close(fd[0]);
        dup2(ef, 2);
        alarm(static_cast<unsigned>(limit_s + 5));
        Ctx c; c.thorough = opt.tier == "thorough"; c.seed = opt.seed;
        int code = 0;
        std::string m;
        try { m = body(c); code = m.empty() ? 0 : 3; }
        catch (const Internal& e) { m = e.what(); code = 4; }
        if (!m.empty()) { ssize_t w = ::write(fd[1], m.data(), std::min<size_t>(m.size(), 60000)); (void)w; }
        _exit(code);
    }
    close(fd[1]);
    const auto start = std::chrono::steady_clock::now();
    int st = 0;
    bool timed_out = false;
    std::string m;
    fcntl(fd[0], F_SETFL, O_NONBLOCK);
    for (;;) {
        char b[4096]; ssize_t k;
        while ((k = ::read(fd[0], b, sizeof b)) > 0) m.append(b, static_cast<size_t>(k));
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > limit_s) {
            timed_out = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break;
        }
        usleep(2000);
    }
    { char b[4096]; ssize_t k; while ((k = ::read(fd[0], b, sizeof b)) > 0) m.append(b, static_cast<size_t>(k)); }
    close(fd[0]); close(ef);
    std::string err = slurp(tmpl);
    unlink(tmpl);
    violated = true;
    if (timed_out) return "hang: the execution did not end within " + std::to_string(limit_s) + " s";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { violated = false; return ""; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return m;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 4) throw Internal(m);
    std::string how = WIFSIGNALED(st) ? "crash: signal " + std::to_string(WTERMSIG(st)) : "abnormal exit " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    // keep the interesting line of a sanitizer report
    std::istringstream es(err); std::string line;
    while (std::getline(es, line))
        if (line.find("ERROR: ") != std::string::npos || line.find("runtime error") != std::string::npos || line.find("terminate") != std::string::npos || line.find("Assertion") != std::string::npos) { how += ": " + line; break; }
    return how;
}

inline bool Explorer::explore_space(const Space& s, Result& r, std::string& vmsg, Prefix& vprefix, History& hist) {
    const int J = opt.jobs;
    auto* slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * static_cast<size_t>(J), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (slots == MAP_FAILED || sh == MAP_FAILED) throw Internal("mmap");
    char dtmpl[] = "/tmp/mc-run-XXXXXX";
    if (!mkdtemp(dtmpl)) throw Internal("mkdtemp");
    const std::string dir = dtmpl;
    const double deadline = opt.deadline_s;

    // A worker explores the given roots depth first.  Worker -1 only expands breadth first until
    // there are enough roots, and writes them to dir/roots.
    auto worker = [&](int id, const std::vector<Prefix>& roots, Slot* slot) -> int {
        Ctx c; c.thorough = opt.tier == "thorough"; c.seed = opt.seed;
        std::vector<std::string> samples;
        bool complete = true;
        uint64_t next_sample = 0;
        auto one = [&](const Prefix& p) -> bool {
            put(slot, p);
            c.want_desc = id >= 0 && c.executions == next_sample && samples.size() < 2;
            if (id < 0) c.want_desc = samples.empty();
            std::string m = execute(c, s, p);
            slot->done = slot->done + 1;
            if (c.want_desc && !c.desc.empty()) { samples.push_back(c.desc); next_sample = c.executions * 7 + 11; }
            if (m.empty()) return true;
            std::ofstream f(dir + "/viol." + std::to_string(id), std::ios::binary);
            f << p.size(); for (auto x : p) f << ' ' << x; f << '\n' << m;
            return false;
        };
        int code = 0;
        try {
            if (id < 0) {
                std::deque<Prefix> q;
                if (!bfs(c, s, breadth(), one, &q)) code = 3;
                std::ofstream f(dir + "/roots");
                f << q.size() << '\n';
                for (auto& p : q) { f << p.size(); for (auto x : p) f << ' ' << x; f << '\n'; }
            } else {
                for (;;) {
                    if (sh->stop) { complete = false; break; }
                    const uint64_t k = __atomic_fetch_add(const_cast<uint64_t*>(&sh->next_item), 1, __ATOMIC_RELAXED);
                    if (k >= roots.size()) break;
                    if (slot->nroots < MAXR) { slot->roots[slot->nroots] = static_cast<uint32_t>(k); slot->nroots = slot->nroots + 1; }
                    bool viol = false;
                    dfs(c, s, roots[k], [&](const Prefix& p) {
                        if (sh->stop) { complete = false; return false; }
                        if (one(p)) return true;
                        viol = true;
                        return false;
                    });
                    if (viol) { code = 3; break; }
                }
            }
        } catch (const Internal& e) {
            std::ofstream f(dir + "/internal"); f << e.what();
            code = 4;
        }
        dump(dir + "/res." + std::to_string(id), c, samples, complete);
        return code;
    };
    auto spawn = [&](int id, const std::vector<Prefix>& roots, Slot* slot) {
        fflush(stdout); std::cout.flush();
        pid_t pid = fork();
        if (pid < 0) throw Internal("fork");
        if (pid == 0) { int c = worker(id, roots, slot); fflush(nullptr); _exit(c); }
        return pid;
    };
    bool violated = false;
    std::set<int> finished;
    std::vector<Prefix> roots;
    auto history_of = [&](int id, Slot* sl) {
        History h;
        h.bfs = id < 0;
        if (id >= 0) for (uint32_t k = 0; k < sl->nroots; k++) h.roots.push_back(roots[sl->roots[k]]);
        return h;
    };
    auto wait_all = [&](std::map<pid_t, int>& pids, auto slot_of) {
        std::map<pid_t, std::pair<uint64_t, double>> last;
        while (!pids.empty()) {
            int st = 0;
            pid_t w = waitpid(-1, &st, WNOHANG);
            if (w > 0 && pids.count(w)) {
                const int id = pids[w];
                pids.erase(w);
                const bool ok = WIFEXITED(st) && (WEXITSTATUS(st) == 0);
                if (ok) { finished.insert(id); continue; }
                if (WIFEXITED(st) && WEXITSTATUS(st) == 4) { for (auto& q : pids) kill(q.first, SIGKILL); for (auto& q : pids) waitpid(q.first, &st, 0); throw Internal(slurp(dir + "/internal")); }
                if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
                    if (!violated) {
                        std::ifstream f(dir + "/viol." + std::to_string(id), std::ios::binary);
                        size_t n; f >> n; vprefix.assign(n, 0); for (auto& x : vprefix) f >> x; f.get();
                        std::stringstream b; b << f.rdbuf(); vmsg = b.str();
                        violated = true;
                        hist = history_of(id, slot_of(id));
                    }
                    finished.insert(id);
                } else {  // crashed: attribute to the current execution
                    Slot* sl = slot_of(id);
                    Prefix p(sl->choices, sl->choices + sl->len);
                    bool v = false;
                    std::string m = run_alone(s, p, s.timeout_s * 2, v);
                    if (!v) m = "a worker died (status " + std::to_string(st) + ")";
                    if (!violated) { violated = true; vmsg = m; vprefix = p; hist = history_of(id, sl); }
                }
                sh->stop = 1;
                continue;
            }
            if (w > 0) continue;
            const double now = elapsed();
            if (now > deadline) sh->stop = 1;
            for (auto& q : pids) {
                Slot* sl = slot_of(q.second);
                auto& l = last[q.first];
                if (l.second == 0 || l.first != sl->beat) { l = {sl->beat, now}; continue; }
                if (now - l.second > s.timeout_s) {
                    if (violated) { kill(q.first, SIGKILL); l.second = now + 1e9; continue; }
                    Prefix p(sl->choices, sl->choices + sl->len);
                    kill(q.first, SIGSTOP);
                    bool v = false;
                    std::string m = run_alone(s, p, s.timeout_s * 3, v);
                    if (v) { kill(q.first, SIGKILL); if (!violated) { violated = true; vmsg = m; vprefix = p; } sh->stop = 1; l.second = now + 1e9; }
                    else { kill(q.first, SIGCONT); l = {sl->beat, elapsed()}; }
                }
            }
            usleep(3000);
        }
    };
    auto collect = [&](int id, std::unordered_set<uint64_t>& st, std::unordered_set<uint64_t>& in) {
        std::ifstream f(dir + "/res." + std::to_string(id), std::ios::binary);
        if (!f) return;
        uint64_t ex, steps, val, ev, pts, nt, ns, nst, nin; bool comp;
        if (!(f >> ex >> steps >> val >> ev >> pts >> comp >> nt >> ns >> nst >> nin)) return;
        f.get();
        r.executions += ex; r.steps += steps; r.validated += val; r.evaluations += ev; r.points += pts;
        r.complete = r.complete && comp;
        for (uint64_t i = 0; i < nt; i++) { uint64_t n, l; f >> n >> l; f.get(); std::string t(l, 0); f.read(&t[0], static_cast<long>(l)); f.get(); r.tags[t] += n; }
        for (uint64_t i = 0; i < ns; i++) { uint64_t l; f >> l; f.get(); std::string t(l, 0); f.read(&t[0], static_cast<long>(l)); f.get(); if (r.samples.size() < 4) r.samples.push_back(t); }
        for (uint64_t i = 0; i < nst; i++) { uint64_t h; f.read(reinterpret_cast<char*>(&h), 8); st.insert(h); }
        for (uint64_t i = 0; i < nin; i++) { uint64_t h; f.read(reinterpret_cast<char*>(&h), 8); in.insert(h); }
    };
    std::unordered_set<uint64_t> st, in;
    r.bound = s.bound;
    try {
        std::map<pid_t, int> pids;
        pids[spawn(-1, {}, &slots[0])] = -1;
        wait_all(pids, [&](int) { return &slots[0]; });
        collect(-1, st, in);
        if (!violated) {
            std::ifstream f(dir + "/roots"); size_t n = 0; f >> n;
            for (size_t i = 0; i < n; i++) { size_t l; f >> l; Prefix p(l); for (auto& x : p) f >> x; roots.push_back(p); }
            for (int i = 0; i < J; i++) { slots[i].beat = 0; slots[i].nroots = 0; }
            if (!roots.empty()) {
                for (int i = 0; i < J; i++) pids[spawn(i, roots, &slots[i])] = i;
                wait_all(pids, [&](int id) { return &slots[id]; });
                for (int i = 0; i < J; i++) collect(i, st, in);
            }
        }
    } catch (...) {
        std::string cmd = "rm -rf " + dir; int rc = system(cmd.c_str()); (void)rc;
        throw;
    }
    r.states = st.size(); r.interesting = in.size();
    if (sh->stop) r.complete = false;
    munmap(slots, sizeof(Slot) * static_cast<size_t>(J)); munmap(sh, sizeof(Shared));
    { std::string cmd = "rm -rf " + dir; int rc = system(cmd.c_str()); (void)rc; }
    return violated;
}

// Greedy: drop deviations while the violation persists (at most 120 attempts).
inline void Explorer::shrink(const Space& s, Prefix& p, std::string& msg) {
    const auto start = std::chrono::steady_clock::now();
    int budget = 120;
    for (size_t i = p.size(); i-- > 0 && budget > 0;) {
        if (p[i] == 0) continue;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > 60) return;
        Prefix q = p; q[i] = 0;
        while (!q.empty() && q.back() == 0) q.pop_back();
        bool v = false;
        std::string m;
        budget--;
        try { m = run_alone(s, q, s.timeout_s, v); } catch (const Internal&) { continue; }
        if (v && m.compare(0, 5, "hang:") != 0) { p = q; msg = m; if (i > p.size()) i = p.size(); }
    }
}

inline void Explorer::describe_case(const Space& s, const Prefix& p, std::string& d) {
    int fd[2];
    if (pipe(fd)) return;
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        alarm(20);
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
        Ctx c; c.want_desc = true; c.thorough = opt.tier == "thorough"; c.seed = opt.seed;
        try { execute(c, s, p); } catch (...) {}
        std::string t = c.desc.substr(0, 8000);
        ssize_t w = ::write(fd[1], t.data(), t.size()); (void)w;
        _exit(0);
    }
    close(fd[1]);
    char b[4096]; ssize_t k;
    while ((k = ::read(fd[0], b, sizeof b)) > 0) d.append(b, static_cast<size_t>(k));
    close(fd[0]);
    int st; waitpid(pid, &st, 0);
}

inline int Explorer::run() {
    if (!opt.replay.empty()) {  // file: space name, choices
        std::ifstream f(opt.replay);
        std::string key, space; Prefix p; History hist;
        std::string line;
        while (std::getline(f, line)) {
            if (line.compare(0, 7, "space: ") == 0) space = line.substr(7);
            if (line == "history: breadth first") hist.bfs = true;
            if (line.compare(0, 6, "root: ") == 0) { std::istringstream is(line.substr(6)); uint32_t x; hist.roots.emplace_back(); while (is >> x) hist.roots.back().push_back(x); }
            if (line.compare(0, 9, "choices: ") == 0) { std::istringstream is(line.substr(9)); uint32_t x; while (is >> x) p.push_back(x); }
        }
        for (auto& s : spaces) if (s.name == space) {
            if (hist.bfs || !hist.roots.empty()) {
                bool v = false; std::string m = run_history(s, hist, 1800, v);
                std::cout << (v ? "REPRODUCED: " + m : std::string("not reproduced")) << std::endl;
                return v ? 1 : 0;
            }
            std::string d; describe_case(s, p, d);
            std::cout << d << "\n";
            bool v = false; std::string m = run_alone(s, p, s.timeout_s * 3, v);
            std::cout << (v ? "REPRODUCED: " + m : std::string("not reproduced")) << std::endl;
            return v ? 1 : 0;
        }
        std::cerr << "unknown space in " << opt.replay << "\n";
        return 2;
    }
    std::vector<std::pair<std::string, Result>> results;
    int code = 0;
    uint64_t violations = 0;
    for (auto& s : spaces) {
        if (!opt.only.empty() && opt.only != s.name) continue;
        Result r; std::string msg; Prefix p;
        const double before = elapsed();
        History hist;
        bool v = explore_space(s, r, msg, p, hist);
        std::cout << "space " << s.name << ": bound " << s.bound << ", " << r.executions << " executions, " << r.points << " choice points, " << r.states << " states, " << r.steps << " transitions, " << (r.complete ? "complete" : "INCOMPLETE") << ", " << elapsed() - before << " s";
        for (auto& t : r.tags) std::cout << " [" << t.first << ": " << t.second << "]";
        std::cout << std::endl;
        results.push_back({s.name, r});
        if (v) {
            // replay before report
            bool again = false;
            std::string m2;
            if (msg.compare(0, 5, "hang:") == 0) { again = true; m2 = msg; }  // (it was confirmed alone)
            for (int k = 0; k < 3 && !again; k++) m2 = run_alone(s, p, s.timeout_s * 3, again);
            if (again) {
                hist = History();
                msg = m2;
                shrink(s, p, msg);
            } else {
                // Not alone: the outcome depends on what the process did before.  Replay that.
                const int limit = static_cast<int>(elapsed() - before) * opt.jobs + s.timeout_s * 3;
                History h = hist;
                if (!h.bfs && h.roots.size() > 1) { History l; l.roots = {h.roots.back()}; m2 = run_history(s, l, limit, again); if (again) hist = l; }
                for (int k = 0; k < 3 && !again; k++) m2 = run_history(s, hist, limit, again);
                if (!again) { std::cerr << "internal: violation did not reproduce: " << msg << std::endl; code = 2; break; }
                msg = m2 + " [only after the earlier executions of the same process: results depend on history]";
            }
            violations++;
            std::string d; describe_case(s, p, d);
            const std::string path = opt.replay_dir + "/" + opt.property + "-" + s.name + ".replay";
            std::ofstream f(path, std::ios::binary);
            f << "property: " << opt.property << "\nspace: " << s.name << "\nchoices:";
            f << " "; for (auto x : p) f << x << ' ';
            if (hist.bfs) f << "\nhistory: breadth first";
            for (auto& h : hist.roots) { f << "\nroot: "; for (auto x : h) f << x << ' '; }
            f << "\nmessage: " << msg << "\n\n" << d << "\n";
            std::cout << "  " << msg.substr(0, 3000) << "\n";
            std::cout << "VIOLATION property=" << opt.property << " replay=" << path << std::endl;
            code = 1;
            break;
        }
    }
    if (!opt.out.empty()) {
        std::ofstream f(opt.out);
        f << "{\"violations\": " << violations << ", \"wall_s\": " << elapsed() << ", \"spaces\": [";
        bool first = true;
        for (auto& pr : results) {
            const Result& r = pr.second;
            if (!first) f << ", ";
            first = false;
            f << "{\"name\": " << jstr(pr.first) << ", \"bound\": " << r.bound << ", \"executions\": " << r.executions << ", \"choice_points\": " << r.points << ", \"states\": " << r.states
              << ", \"transitions\": " << r.steps << ", \"traces_validated\": " << r.validated << ", \"evaluations\": " << r.evaluations << ", \"nontrivial\": " << r.interesting << ", \"complete\": " << (r.complete ? "true" : "false") << ", \"outcomes\": {";
            bool ft = true;
            for (auto& t : r.tags) { if (!ft) f << ", "; ft = false; f << jstr(t.first) << ": " << t.second; }
            f << "}, \"samples\": [";
            for (size_t i = 0; i < r.samples.size(); i++) f << (i ? ", " : "") << jstr(r.samples[i].substr(0, 1500));
            f << "]}";
        }
        f << "]}\n";
    }
    return code;
}

inline Options parse(int argc, char** argv) {
    Options o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { if (i + 1 >= argc) { std::cerr << "missing value for " << a << "\n"; exit(2); } return argv[++i]; };
        if (a == "--property") o.property = next();
        else if (a == "--out") o.out = next();
        else if (a == "--replay-dir") o.replay_dir = next();
        else if (a == "--replay") o.replay = next();
        else if (a == "--tier") o.tier = next();
        else if (a == "--only") o.only = next();
        else if (a == "--jobs") o.jobs = atoi(next().c_str());
        else if (a == "--deadline") o.deadline_s = atof(next().c_str());
        else if (a == "--known") Ctx::listed().insert(next());
        else if (a == "--seed") o.seed = strtoull(next().c_str(), nullptr, 10);
        else { std::cerr << "unknown option " << a << "\n"; exit(2); }
    }
    return o;
}

inline int run_main(Explorer& e) {
    try { return e.run(); }
    catch (const std::exception& x) { fprintf(stderr, "internal error: %s\n", x.what()); return 2; }
}

}  // namespace mc
