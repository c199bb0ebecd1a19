// C20: the inspection example, run as a program on files of a bounded family.
#define ALLOC_COUNT
#include "alloc_count.h"
#include "mini.h"
#include "oracle.h"
#include "sysio.h"
#include <cmath>
#include <sys/prctl.h>
#include <sys/stat.h>
using namespace mc; using namespace sp; using namespace gen;
#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool EXT = true;
static const char* LIBDIR = "MSHIO_LIB_EXAMPLE_ON";
#else
constexpr bool EXT = false;
static const char* LIBDIR = "MSHIO_LIB_EXAMPLE_OFF";
#endif

// ---- running the program
struct Ran { bool exited = false; int code = 0; std::string out; bool copied = false; std::string copy; std::string how() const { return exited ? "exit status " + std::to_string(code) : "signal " + std::to_string(code); } };
static std::string program, scratch_dir;
static std::string cwd() { const std::string d = scratch_dir + "/" + std::to_string(getpid()); mkdir(d.c_str(), 0700); return d; }
static void put(const std::string& path, const std::string& b) { FILE* fp = fopen(path.c_str(), "wb"); if (!fp || (b.size() && fwrite(b.data(), 1, b.size(), fp) != b.size()) || fclose(fp)) throw Internal("scratch file " + path); }

static Ran inspect(const std::string& dir, const std::vector<std::string>& args) {
    const std::string out = dir + "/stdout", copy = dir + "/tmp.msh";
    unlink(copy.c_str());
    std::vector<char*> argv;
    argv.push_back(const_cast<char*>(program.c_str()));
    for (auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(nullptr);
    const pid_t pid = fork();
    if (pid < 0) throw Internal("fork");
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        const int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), null = open("/dev/null", O_RDWR);
        if (fd < 0 || null < 0 || chdir(dir.c_str())) _exit(125);
        dup2(null, 0); dup2(fd, 1); dup2(null, 2);
        alarm(20);
        const struct rlimit mem{256u << 20, 256u << 20}; setrlimit(RLIMIT_AS, &mem);
        execv(argv[0], argv.data());
        _exit(125);
    }
    int st = 0;
    if (waitpid(pid, &st, 0) != pid) throw Internal("waitpid");
    Ran r;
    r.exited = WIFEXITED(st);
    r.code = r.exited ? WEXITSTATUS(st) : WTERMSIG(st);
    if (r.exited && r.code == 125) throw Internal("the program could not be started");
    r.out = slurp(out);
    struct stat sb;
    if (!stat(copy.c_str(), &sb)) { r.copied = true; r.copy = slurp(copy); }
    return r;
}

// ---- what it prints, labels dropped
struct Token { bool text = false; std::string s; };
static std::vector<Token> tokens(const std::string& o) {
    std::vector<Token> v;
    for (size_t p = 0; p < o.size();) {
        if (isspace(static_cast<unsigned char>(o[p]))) { p++; continue; }
        if (o[p] == '"') {
            Token t; t.text = true;
            for (p++; p < o.size() && o[p] != '"'; p++) { if (o[p] == '\\' && p + 1 < o.size()) p++; t.s += o[p]; }
            p++;
            v.push_back(t);
            continue;
        }
        size_t e = p;
        while (e < o.size() && !isspace(static_cast<unsigned char>(o[e]))) e++;
        std::string w = o.substr(p, e - p);
        p = e;
        while (!w.empty() && w.back() == ':') w.pop_back();
        char* end = nullptr;
        if (w.empty()) continue;
        (void)strtod(w.c_str(), &end);
        if (!*end) v.push_back({false, w});
    }
    return v;
}
struct Want {
    enum Kind { INT, REAL, TEXT, ANY, INT_AS_REAL } kind;
    std::string s; double d; const char* what;
};
struct Expected {
    std::vector<Want> v;
    bool parametric_defect = false;
    template <class T> void i(const char* w, T x) { v.push_back({Want::INT, std::to_string(x), 0, w}); }
    void d(const char* w, double x) { v.push_back({Want::REAL, "", x, w}); }
    void t(const char* w, const std::string& x) { v.push_back({Want::TEXT, x, 0, w}); }
    void tags(const char* w, const std::vector<int>& x) { i(w, x.size()); for (int k : x) i(w, k); }
};
template <class E> static void box_of(Expected& x, const E& e) {
    x.i("entity tag", e.tag);
    for (double k : {e.min_x, e.min_y, e.min_z, e.max_x, e.max_y, e.max_z}) x.d("entity bounding box", k);
    x.tags("entity physical groups", e.physical_group_tags);
}
// `defect`: as the program is known to print parametric blocks
static Expected expected(const MshSpec& s, bool defect) {
    Expected x;
    x.i("sizeof(int)", sizeof(int)); x.i("sizeof(size_t)", sizeof(size_t)); x.i("sizeof(double)", sizeof(double));
    x.i("number of points", s.entities.points.size());
    for (auto& e : s.entities.points) { x.i("point tag", e.tag); x.d("point", e.x); x.d("point", e.y); x.d("point", e.z); x.tags("point physical groups", e.physical_group_tags); }
    x.i("number of curves", s.entities.curves.size());
    for (auto& e : s.entities.curves) { box_of(x, e); x.tags("boundary points", e.boundary_point_tags); }
    x.i("number of surfaces", s.entities.surfaces.size());
    for (auto& e : s.entities.surfaces) { box_of(x, e); x.tags("boundary curves", e.boundary_curve_tags); }
    x.i("number of volumes", s.entities.volumes.size());
    for (auto& e : s.entities.volumes) { box_of(x, e); x.tags("boundary surfaces", e.boundary_surface_tags); }
    x.i("number of physical groups", s.physical_groups.size());
    for (auto& g : s.physical_groups) { x.i("group dim", g.dim); x.i("group tag", g.tag); x.t("group name", g.name); }
    x.i("number of nodes", s.nodes.num_nodes); x.i("number of node blocks", s.nodes.num_entity_blocks);
    x.i("min node tag", s.nodes.min_node_tag); x.i("max node tag", s.nodes.max_node_tag);
    for (auto& b : s.nodes.entity_blocks) {
        x.i("node block dim", b.entity_dim); x.i("node block tag", b.entity_tag); x.i("parametric", b.parametric); x.i("nodes in block", b.num_nodes_in_block);
        const bool wrong = defect && b.parametric && b.entity_dim != 1;
        if (b.parametric && b.entity_dim != 1) x.parametric_defect = true;
        const size_t w = wrong ? 4 : 3 + (b.parametric ? static_cast<size_t>(b.entity_dim) : 0);
        for (size_t j = 0; j < b.tags.size(); j++) {
            x.i("node tag", b.tags[j]);
            for (size_t k = 0; k < w; k++) {
                if (j * w + k < b.data.size()) x.d("node coordinates", b.data[j * w + k]);
                else x.v.push_back({Want::ANY, "", 0, "node coordinates"});
            }
        }
    }
    x.i("number of elements", s.elements.num_elements); x.i("number of element blocks", s.elements.num_entity_blocks);
    x.i("min element tag", s.elements.min_element_tag); x.i("max element tag", s.elements.max_element_tag);
    for (auto& b : s.elements.entity_blocks) {
        x.i("element block dim", b.entity_dim); x.i("element block tag", b.entity_tag); x.i("element type", b.element_type); x.i("elements in block", b.num_elements_in_block);
        for (size_t k : b.data) x.i("element", k);
    }
    for (auto* dv : {&s.node_data, &s.element_data}) for (auto& d : *dv) {
        x.i("number of string tags", d.header.string_tags.size());
        for (auto& t : d.header.string_tags) x.t("string tag", t);
        x.i("number of real tags", d.header.real_tags.size());
        for (double t : d.header.real_tags) x.d("real tag", t);
        x.i("number of int tags", d.header.int_tags.size());
        for (int t : d.header.int_tags) x.v.push_back({Want::INT_AS_REAL, std::to_string(t), static_cast<double>(t), "integer tag"});
        for (auto& q : d.entries) { x.i("entry tag", q.tag); for (double k : q.data) x.d("entry value", k); }
    }
    return x;
}
static bool same_real(double want, const std::string& s) {
    const double got = strtod(s.c_str(), nullptr);
    if (std::isnan(want) || std::isnan(got)) return std::isnan(want) && std::isnan(got);
    if (std::isinf(want) || std::isinf(got)) return want == got || (std::isinf(got) && std::fabs(want) > 1.79769e308 && (want > 0) == (got > 0));  // rounding of the largest values
    if (std::signbit(want) != std::signbit(got)) return false;
    return std::fabs(want - got) <= 1e-5 * std::fabs(want) + 1e-323;
}
// "" or the first difference
static std::string compare(const Expected& x, const std::vector<Token>& t, bool& rounded) {
    for (size_t k = 0; k < x.v.size(); k++) {
        const Want& w = x.v[k];
        const std::string n = "item " + std::to_string(k) + " printed (" + w.what + "): ";
        if (k >= t.size()) return n + "nothing";
        if ((w.kind == Want::TEXT) != t[k].text) return n + show(t[k].s) + (t[k].text ? " is a name" : " is a number");
        char b[40]; snprintf(b, sizeof b, "%.17g", w.d);
        if (w.kind == Want::INT && t[k].s != w.s) return n + t[k].s + ", the file has " + w.s;
        if (w.kind == Want::TEXT && t[k].s != w.s) return n + show(t[k].s) + ", the file has " + show(w.s);
        if (w.kind == Want::REAL && !same_real(w.d, t[k].s)) return n + t[k].s + ", the file has " + b;
        if (w.kind == Want::INT_AS_REAL && t[k].s != w.s) {
            if (std::fabs(w.d) < 1e6 || !same_real(w.d, t[k].s)) return n + t[k].s + ", the file has " + w.s;
            rounded = true;
        }
    }
    return t.size() > x.v.size() ? "printed after the content: " + t[x.v.size()].s : "";
}

static void valid(Ctx& c, const ref::File& f, const std::string& bytes) {
    c.state(bytes);
    if (c.want_desc) c.describe("file:\n" + hexdump(bytes, 5000));
    const Loaded l = load_bytes(bytes);
    c.check(l.ok, "a well-formed file is refused: " + l.error);
    const std::string m = oracle::mismatch(f, l.spec, EXT);
    c.check(m.empty(), m);
    const std::string d = cwd();
    put(d + "/in.msh", bytes);
    const Ran r = inspect(d, {!c.flag() ? "in.msh" : d + "/in.msh"});
    c.step();
    c.check(r.exited && r.code == 0, "a valid file: " + r.how());
    if (c.want_desc) c.describe("file:\n" + hexdump(bytes, 5000) + "\nprinted:\n" + r.out.substr(0, 6000));
    bool rounded = false;
    const std::vector<Token> t = tokens(r.out);
    const Expected x = expected(l.spec, false);
    std::string w = compare(x, t, rounded);
    if (!w.empty() && x.parametric_defect) {
        rounded = false;
        const std::string w2 = compare(expected(l.spec, true), t, rounded);
        if (w2.empty()) { c.known("parametric", w); w.clear(); }
    }
    c.check(w.empty(), w);
    if (rounded) c.known("int-tags", "an integer tag is printed rounded");
    c.check(slurp(d + "/in.msh") == bytes, "the program changed its input");
    c.check(r.copied, "no copy was written");
    const Loaded k = load_bytes(r.copy);
    c.check(k.ok, "the copy does not load: " + k.error);
    const std::string e = f.format.version == "4.1" ? diff(stored(l.spec), k.spec, EXT) : flat_diff(stored(l.spec), k.spec, true, EXT);
    c.check(e.empty(), "the copy loads as something else: " + e);
    c.traced();
    c.tag(f.format.version + (f.format.file_type ? " binary" : " ascii"));
}
static void valid(Ctx& c, const MshSpec& s) {
    const ref::File f = ref::content_of(s, EXT);
    ref::Style st;
    valid(c, f, ref::Encoder(f, st).file());
}
static void damaged(Ctx& c, const std::string& bytes, const std::string& what) {
    c.state(bytes);
    if (c.want_desc) c.describe(what + "\n" + hexdump(bytes, 5000));
    const Loaded l = [&] { alloc::Cap cap(64u << 20); return load_bytes(bytes); }();
    const std::string d = cwd();
    put(d + "/in.msh", bytes);
    const Ran r = inspect(d, {"in.msh"});
    c.step();
    const bool success = r.exited && r.code == 0;
    if (!l.ok) c.check(!success, what + ": the program reports success (" + l.error + ")");
    else c.check(success, what + ", which is complete: " + r.how());
    c.tag(l.ok ? "complete" : "damaged");
}

int main(int argc, char** argv) {
    Quiet quiet;
    struct rlimit no{0, 0}; setrlimit(RLIMIT_CORE, &no);
    sysio::Scratch scratch; scratch_dir = scratch.dir;
    const char* lib = getenv(LIBDIR);
    if (!lib) { std::cerr << "no " << LIBDIR << std::endl; return 2; }
    program = std::string(lib) + "/msh_inspect";
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    auto opt = [](Ctx& c, int rich) {
        const mini::Fmt f = c.free_of(mini::formats());
        Opt o; o.version = f.version; o.file_type = f.type; o.rich = rich; o.ext = EXT; o.unique_entities = f.version[0] == '2'; return o;
    };
    // every field and list length of a rich file
    e.add({"fields", [&](Ctx& c) { valid(c, Gen(c, opt(c, 1)).spec()); }, 1});
    // pairs of deviations of a small file
    e.add({"counts", [&](Ctx& c) { Opt o = opt(c, 0); o.vary_values = c.thorough; valid(c, Gen(c, o).spec()); }, th ? 2 : 1});
    e.add({"sections", [&](Ctx& c) {
        Opt o = opt(c, static_cast<int>(c.free_choose(2))); o.vary_values = o.vary_counts = false;
        MshSpec s = Gen(c, o).spec();
        if (c.free_flag()) s.physical_groups.clear();
        if (c.free_flag()) s.entities = Entities();
        const uint32_t n = c.free_choose(3);
        if (n >= 1) s.elements = Elements();
        if (n >= 2) s.nodes = Nodes();
        if (c.free_flag()) s.node_data.clear();
        if (c.free_flag()) s.element_data.clear();
        if (c.free_flag()) s.element_node_data.clear();
        valid(c, s);
    }, 0});
    // every element type with its connectivity; every length of every list
    e.add({"types", [&](Ctx& c) {
        Opt o = opt(c, 0); o.vary_values = o.vary_counts = false; o.target = "nodes_in_block"; o.length = 60;
        MshSpec s = Gen(c, o).spec();
        s.elements = Elements();
        size_t tag = 5;
        for (uint32_t k = 0; k < 2; k++) {
            const Type& t = k ? types()[c.free_choose(c.thorough ? 31 : 3)] : c.free_of(types());
            ElementBlock b; b.entity_dim = t.dim; b.entity_tag = static_cast<int>(k + 1); b.element_type = t.type; b.num_elements_in_block = 2;
            for (size_t j = 0; j < 2; j++) { b.data.push_back(tag); tag += 2; for (size_t q = 0; q < t.nodes; q++) b.data.push_back(s.nodes.entity_blocks[0].tags[(q * 7 + j) % 60]); }
            s.elements.entity_blocks.push_back(b);
        }
        s.elements.num_entity_blocks = 2; s.elements.num_elements = 4; s.elements.min_element_tag = 5; s.elements.max_element_tag = 11;
        valid(c, s);
    }, 0});
    e.add({"lengths", [&](Ctx& c) {
        Opt o = opt(c, 0); o.vary_values = o.vary_counts = false; o.unique_entities = false;
        o.target = c.free_of(sweep_targets(EXT)); o.length = c.free_of<size_t>({0, 1, 2, 3, 5, 8, 17, 100, 257});
        valid(c, Gen(c, o).spec());
    }, 0});
    // every prefix of the small file (thorough: of the rich one too)
    e.add({"prefixes", [&](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        MshSpec s = mini::fixed(f, c.thorough ? static_cast<int>(c.free_choose(2)) : 0, EXT);
        if (!c.thorough) s = mini::only(s, c.free_of<std::string>({"Both", "NodeData", "PhysicalNames"}));
        const std::string b = mini::encode(s, EXT).bytes;
        const uint32_t p = c.free_choose(static_cast<uint32_t>(b.size()));
        damaged(c, b.substr(0, p), "cut at byte " + std::to_string(p) + " of " + std::to_string(b.size()));
    }, 0});
    // every text field damaged
    e.add({"tokens", [&](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const mini::Encoded w = mini::encode(mini::fixed(f, c.thorough ? static_cast<int>(c.free_choose(2)) : 0, EXT), EXT);
        std::vector<ref::Encoder::Mark> in;
        for (auto& m : w.marks) if (m.text()) in.push_back(m);
        const auto m = c.free_of(in);
        const std::string t = c.free_of<std::string>({"x", "", "-1", "3.0", "7"});
        damaged(c, w.bytes.substr(0, m.pos) + t + w.bytes.substr(m.pos + m.len), "the field at byte " + std::to_string(m.pos) + " is " + show(t));
    }, 0});
    // what cannot be inspected at all
    e.add({"arguments", [&](Ctx& c) {
        const std::string d = cwd();
        const mini::Fmt f = c.free_of(mini::formats());
        put(d + "/in.msh", mini::encode(mini::fixed(f, 0, EXT), EXT).bytes);
        static const std::vector<std::vector<std::string>> a = {{}, {"in.msh", "in.msh"}, {"missing.msh"}, {""}, {"."}, {"in.msh/"}, {"in.msh", ""}, {"/dev/null"}, {"missing/in.msh"}};
        const auto& k = c.free_of(a);
        const Ran r = inspect(d, k);
        c.step();
        std::string n; for (auto& x : k) n += " " + show(x);
        c.state("arguments" + n);
        if (c.want_desc) c.describe("arguments:" + n);
        c.check(!(r.exited && r.code == 0), "arguments" + n + ": the program reports success");
        c.check(!r.copied, "arguments" + n + ": a copy was written");
        c.tag("refused");
    }, 0});
    (void)th;
    return run_main(e);
}
