// C08: a truncated or damaged file is never accepted as complete.
#define ALLOC_COUNT
#include "alloc_count.h"
#include "mini.h"
#include "oracle.h"
using namespace mc; using namespace sp; using namespace gen;
#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool EXT = true;
#else
constexpr bool EXT = false;
#endif

struct Whole { std::string bytes; ref::File file; std::vector<std::pair<size_t, size_t>> extents; std::vector<ref::Encoder::Mark> marks; };

struct Tight : ref::Style { bool nl; explicit Tight(bool n) : nl(n) {} std::string after_binary() override { return nl ? "\n" : ""; } };

static Whole encoded(const MshSpec& s, bool newline) {
    Whole w;
    w.file = ref::content_of(s, EXT);
    Tight st(newline);
    ref::Encoder e(w.file, st);
    w.bytes = e.file(); w.extents = e.extents; w.marks = e.marks;
    return w;
}
// A file by the library itself, taken apart by the independent decoder.
static Whole saved(Ctx& c, const MshSpec& s) {
    Whole w;
    const Saved f = save_bytes(s);
    c.step();
    c.check(f.ok, "save refused: " + f.error);
    w.bytes = f.bytes;
    const ref::File d = ref::Decoder(w.bytes).decode();
    w.file = ref::content_of(s, EXT);
    w.extents = d.extents;
    return w;
}

static void expect_throw(Ctx& c, const std::string& bytes, const std::string& what) {
    c.evaluated();
    c.state(bytes); c.nontrivial(fnv(bytes));
    if (c.want_desc) c.describe(what + "\ninput (" + std::to_string(bytes.size()) + " bytes):\n" + hexdump(bytes, 6000));
    const Loaded l = [&] { alloc::Cap cap(64u << 20); return load_bytes(bytes); }();
    c.step();
    c.tag("damaged: " + l.kind);
    if (l.ok) c.fail(what + ": accepted");
}

static void cut(Ctx& c, const Whole& w, size_t p) {
    const std::string bytes = w.bytes.substr(0, p);
    size_t complete = 0;
    for (auto& x : w.extents) {
        if (p >= x.second) complete++;
        else if (p > x.first) return expect_throw(c, bytes, "cut at byte " + std::to_string(p) + " of " + std::to_string(w.bytes.size()) + ", inside $" + w.file.order[complete]);
    }
    if (complete == 0) return expect_throw(c, bytes, "cut before the header");
    c.evaluated();
    c.state(bytes);
    if (c.want_desc) c.describe("cut between sections:\n" + hexdump(bytes, 6000));
    const Loaded l = [&] { alloc::Cap cap(64u << 20); return load_bytes(bytes); }();
    c.step();
    c.check(l.ok, "cut between sections, after " + std::to_string(complete) + " of them: refused: " + l.error);
    const std::string m = oracle::mismatch(oracle::first_sections(w.file, complete), l.spec, EXT);
    c.check(m.empty(), "cut after " + std::to_string(complete) + " complete sections: " + m);
    c.traced();
    c.tag("between sections");
}

static Whole pick(Ctx& c, const MshSpec& s) {
    switch (c.free_choose(s.mesh_format.file_type ? 3 : 2)) {
    case 0: return saved(c, s);
    case 1: return encoded(s, true);
    default: return encoded(s, false);
    }
}

int main(int argc, char** argv) {
    Quiet quiet;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    // every prefix of the rich and the small file
    e.add({"prefixes", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const Whole w = pick(c, mini::fixed(f, static_cast<int>(c.free_choose(2)), EXT));
        cut(c, w, c.free_choose(static_cast<uint32_t>(w.bytes.size()) + 1));
    }, 0});
    // every prefix of files with every combination of sections
    e.add({"shapes", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        MshSpec s = mini::fixed(f, 0, EXT);
        if (c.free_flag()) s.physical_groups.clear();
        if (c.free_flag()) s.entities = Entities();
        const uint32_t n = c.free_choose(3);
        if (n >= 1) s.elements = Elements();
        if (n >= 2) s.nodes = Nodes();
        if (c.free_flag()) s.node_data.clear();
        if (c.free_flag()) s.element_data.clear(); else s.element_data.push_back(s.element_data[0]);
        if (c.free_flag()) s.element_node_data.clear();
        if (EXT) { if (c.free_flag()) s.curves.clear(); if (c.free_flag()) s.patches.clear(); }
        const Whole w = c.free_flag() ? encoded(s, false) : saved(c, s);
        cut(c, w, c.free_choose(static_cast<uint32_t>(w.bytes.size()) + 1));
    }, 0});
    // every prefix of files one (thorough: two) deviations from the small one: other counts, types, values
    e.add({"variants", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        Opt o; o.version = f.version; o.file_type = f.type; o.ext = EXT; o.vary_values = c.thorough; o.max_tag = 2147483647; o.finite = true;
        const MshSpec s = Gen(c, o).spec();
        const Whole w = encoded(s, f.type == 0 || c.free_flag());
        cut(c, w, c.free_choose(static_cast<uint32_t>(w.bytes.size()) + 1));
    }, 1});
    // prefixes of long lists: cuts inside and around every record
    e.add({"long", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        Opt o; o.version = f.version; o.file_type = f.type; o.ext = EXT; o.vary_values = o.vary_counts = false;
        o.target = c.free_of(sweep_targets(EXT)); o.length = c.free_of<size_t>({5, 17});
        const Whole w = encoded(mini::only(Gen(c, o).spec(), c.free_of(mini::sections(EXT))), true);
        if (w.file.order.size() < 2) throw Skip{};
        const size_t from = w.extents[1].first;
        cut(c, w, from + c.free_choose(static_cast<uint32_t>(w.bytes.size() - from) + 1));
    }, 0});
    // something that is not a number where a number is required; every text field of every format
    e.add({"tokens", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const Whole w = encoded(mini::fixed(f, static_cast<int>(c.free_choose(2)), EXT), true);
        std::vector<ref::Encoder::Mark> num;
        for (auto& m : w.marks) if (m.kind == 'u' || m.kind == 'i' || m.kind == 'd') num.push_back(m);
        const auto m = c.free_of(num);
        static const std::vector<std::string> bad = {"x", "x1", "$", "-", "\"1\"", ".", "--1", "$End", "99999999999999999999999"};
        const std::string t = c.free_of(bad);
        if (m.kind == 'd' && t[0] == '9') throw Skip{};
        const std::string b = w.bytes.substr(0, m.pos) + t + w.bytes.substr(m.pos + m.len);
        expect_throw(c, b, "the number at byte " + std::to_string(m.pos) + " is replaced by " + t);
    }, 0});
    // a section ends early: the last k numbers of it are missing
    e.add({"short-sections", [](Ctx& c) {
        const mini::Fmt f = c.free_of<mini::Fmt>({{"4.1", 0}, {"2.2", 0}});  // in binary, bytes that are missing cannot be told from bytes that are there
        const Whole w = encoded(mini::fixed(f, static_cast<int>(c.free_choose(2)), EXT), true);
        const uint32_t k = c.free_choose(static_cast<uint32_t>(w.extents.size()));
        std::vector<ref::Encoder::Mark> in;
        for (auto& m : w.marks) if (m.pos > w.extents[k].first && m.pos + m.len <= w.extents[k].second && m.kind != 'm') in.push_back(m);
        if (w.file.order[k] == "NanoSplineFormat" || w.file.order[k] == "MeshFormat" || in.empty()) throw Skip{};
        // keep the fields before `keep`, then the end marker
        const uint32_t keep = c.free_choose(static_cast<uint32_t>(in.size()));
        const auto m = in[keep];
        const size_t end = w.extents[k].second - (w.file.order[k].size() + 4);
        const std::string b = w.bytes.substr(0, m.pos) + (c.free_flag() ? "\n" : "") + w.bytes.substr(end);
        expect_throw(c, b, "section $" + w.file.order[k] + " ends after " + std::to_string(keep) + " of its " + std::to_string(in.size()) + " fields");
    }, 0});
    // end markers missing or damaged in files that have each section once
    e.add({"markers", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const Whole w = encoded(mini::fixed(f, 0, EXT), true);
        const uint32_t k = c.free_choose(static_cast<uint32_t>(w.extents.size()));
        const std::string name = "$End" + w.file.order[k];
        const size_t at = w.extents[k].second - name.size();
        const uint32_t how = c.free_choose(3 + static_cast<uint32_t>(name.size()));
        std::string n;
        if (how == 0) n = ""; else if (how == 1) n = name.substr(1); else if (how == 2) n = name + "x"; else { n = name; n[how - 3] = n[how - 3] == '#' ? '%' : '#'; }
        expect_throw(c, w.bytes.substr(0, at) + n + w.bytes.substr(at + name.size()), "the end marker of $" + w.file.order[k] + " is " + show(n));
    }, 0});
    // no header: every selection of the other sections, every damage of the header line
    e.add({"header", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const Whole w = encoded(mini::fixed(f, 0, EXT), true);
        const uint32_t how = c.free_choose(3);
        if (how == 0) {
            std::string b;
            for (size_t k = 1; k < w.extents.size(); k++) if (c.free_flag()) b += w.bytes.substr(w.extents[k].first, w.extents[k].second - w.extents[k].first) + "\n";
            if (c.free_flag()) b = "$Comments\nno header here\n$EndComments\n" + b;
            return expect_throw(c, b, "no header");
        }
        static const std::vector<std::string> lines = {"", "4.1", "4.1 0", "0 8", "x", "4.1 x 8", "4.1 0 x", "x 0 8", "\"4.1\" 0 8", "4.1,0,8"};
        const std::string body = c.free_of(lines);
        const std::string rest = w.bytes.substr(w.extents[0].second);
        if (how == 1) return expect_throw(c, "$MeshFormat\n" + body + "\n$EndMeshFormat" + (c.free_flag() ? rest : "\n"), "damaged header " + show(body));
        if (!f.type) throw Skip{};
        // the endianness mark is missing or short
        const uint32_t n = c.free_choose(4);
        expect_throw(c, std::string("$MeshFormat\n") + f.version + " 1 8\n" + std::string("\1\0\0\0", 4).substr(0, n) + (c.free_flag() ? "\n" : "") + "$EndMeshFormat" + (c.free_flag() ? rest : "\n"), "the endianness mark has " + std::to_string(n) + " bytes");
    }, 0});
    (void)th;
    return run_main(e);
}
