// C18: unsupported sections are skipped exactly, wherever they are and whatever they hold.
#include "mini.h"
#include "oracle.h"
using namespace mc; using namespace sp; using namespace gen;
#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool EXT = true;
#else
constexpr bool EXT = false;
#endif

struct Base { std::string bytes; std::vector<size_t> gaps; Loaded plain; };  // gaps: offsets between sections and at the end
// rich: 0 small, 1 rich; writer: 0 the library, 1 and 2 the independent encoder with and without a newline after binary data
static const Base& base(Ctx& c, const mini::Fmt& f, int rich, int writer) {
    static std::map<std::string, Base> cache;
    Base& b = cache[mini::name(f) + std::to_string(rich) + std::to_string(writer)];
    if (!b.bytes.empty()) return b;
    const MshSpec s = mini::fixed(f, rich, EXT);
    std::vector<std::pair<size_t, size_t>> extents;
    struct Tight : ref::Style { bool nl = true; std::string after_binary() override { return nl ? "\n" : ""; } } st;
    st.nl = writer != 2;
    const ref::File content = ref::content_of(s, EXT);
    ref::Encoder enc(content, st);
    const std::string own = enc.file();
    if (writer == 0) {
        const Saved sv = save_bytes(s);
        c.check(sv.ok, "save refused: " + sv.error);
        b.bytes = sv.bytes; extents = ref::Decoder(sv.bytes).decode().extents;
    } else { b.bytes = own; extents = enc.extents; }
    for (auto& x : extents) { size_t p = x.second; while (p < b.bytes.size() && (b.bytes[p] == '\n' || b.bytes[p] == '\r')) p++; b.gaps.push_back(p); }
    b.plain = load_bytes(b.bytes);
    c.check(b.plain.ok, "the file without other sections is refused: " + b.plain.error);
    return b;
}
struct Insert { size_t at; std::string text; };
static std::string with(const Base& b, std::vector<Insert> in) {
    std::string r; size_t p = 0;
    std::stable_sort(in.begin(), in.end(), [](const Insert& x, const Insert& y) { return x.at < y.at; });
    for (auto& i : in) {
        r += b.bytes.substr(p, i.at - p); p = i.at;
        if (!r.empty() && r.back() != '\n') r += '\n';
        r += i.text;
    }
    return r + b.bytes.substr(p);
}
static void judge(Ctx& c, const Base& b, const std::string& bytes, const std::string& what) {
    c.evaluated(); c.state(bytes); c.nontrivial(fnv(bytes));
    if (c.want_desc) c.describe(what + "\n" + hexdump(bytes, 6000));
    const Loaded l = load_bytes(bytes);
    c.step();
    c.check(l.ok, what + ": refused: " + l.error);
    const std::string d = diff(b.plain.spec, l.spec);
    c.check(d.empty(), what + ": other content: " + d);
    c.traced(); c.tag("skipped");
}
// The body may not hold the section's own end marker.
static bool own_marker_inside(const std::string& body, const std::string& name) {
    const std::string m = "$End" + name;
    for (size_t p = body.find(m); p != std::string::npos; p = body.find(m, p + 1)) {
        const size_t q = p + m.size();
        if (q == body.size() || isspace(static_cast<unsigned char>(body[q]))) return true;
    }
    return false;
}
static std::string section(const std::string& name, const std::string& body, const std::string& eol, bool newline_before_end) {
    return "$" + name + eol + body + (newline_before_end ? eol : "") + "$End" + name + eol;
}
static const std::vector<std::string>& names() {
    static const std::vector<std::string> n = {"Foo", "Comments", "PartitionedEntities", "Periodic", "GhostElements", "Parametrizations", "InterpolationScheme", "Node", "NodesX", "Nodes2", "nodes", "NODES", "NodeDat", "NodeDataX", "ElementNode", "ElementNodeDataX", "ElementDat", "Element", "Elements1", "Entitie", "EntitiesX", "PhysicalName", "PhysicalNames_", "MeshForma", "MeshFormatX", "MeshFormat2", "E", "En", "$", "$Nodes", "-1", "0", "Curve", "Patch", "CurvesX", "NanoSpline", "\xc3\xa9", std::string(300, 'S'), "a$b", "Foo:Bar"};
    return n;
}
// adversarial bodies; @ stands for the name of the section
static std::vector<std::string> bodies(const std::string& name) {
    std::vector<std::string> b = {"", "1", "1 2 3\n4 5 6", "$", "$End", "$ End@", "$End @", "$End@x", "x\n$End@x", "$end@", "$END@", "$@", "$@\n1\n", "$$End@x", "$Nodes", "$Nodes\n1 1 1 1\n0 0 0 1\n1\n0 0 0\n$EndNodes", "$EndNodes", "$MeshFormat\n9.9 7 3\n$EndMeshFormat", "$MeshFormat\n", "$EndMeshFormat\n$Elements\n", "$Other\n1\n$EndOther", "$Other", "$EndOther", "\"$Nodes\"", "// comment", "\n\n\n", "\r\n", "\t", std::string(1, '\0'), std::string("\0$Nodes\0", 8), "\xff\xfe", "nan", "1e999", "99999999999999999999", "-", "$PhysicalNames\n1\n0 1 \"a\"\n$EndPhysicalNames", "$NodeData\n", std::string(5000, 'x'), std::string(5000, '\n'), std::string(9000, '$'), "\"unbalanced", "\\", "a\x1a" "b", "En d", "E", "$E", "$En", "$End\n@", "$End@$End", "$End@$", "End@"};
    for (auto& s : b) for (size_t p; (p = s.find('@')) != std::string::npos;) s.replace(p, 1, name);
    return b;
}

int main(int argc, char** argv) {
    Quiet quiet;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    auto pick = [](Ctx& c, const Base*& b) {
        const mini::Fmt f = c.free_of(mini::formats());
        const int rich = static_cast<int>(c.free_choose(2));
        b = &base(c, f, rich, static_cast<int>(c.free_choose(f.type ? 3 : 2)));
    };
    auto gap = [](Ctx& c, const Base& b) { return b.gaps[c.free_choose(static_cast<uint32_t>(b.gaps.size()))]; };
    // one section of every name with every body at every position
    e.add({"one", [=](Ctx& c) {
        const Base* b; pick(c, b);
        const std::string name = c.of(names());
        const std::string body = c.of(bodies(name));
        const size_t at = gap(c, *b);
        const std::string eol = c.of<std::string>({"\n", "\r\n"});
        const bool nl = c.choose(2) == 0;
        if (own_marker_inside(body + (nl ? eol : ""), name)) throw Skip{};
        if (!nl && !body.empty() && own_marker_inside(body + "$End" + name + "x", name)) throw Skip{};
        judge(c, *b, with(*b, {{at, section(name, body, eol, nl)}}), "section $" + name.substr(0, 40) + " at byte " + std::to_string(at));
    }, th ? 3 : 2});
    // names derived from those of the supported sections, with bodies such sections have
    e.add({"derived", [=](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const Base& b = base(c, f, 1, 0);
        static const std::vector<std::string> known = {"MeshFormat", "PhysicalNames", "Entities", "Nodes", "Elements", "NodeData", "ElementData", "ElementNodeData", "NanoSplineFormat", "Curves", "Patches"};
        const std::string s = c.free_of(known);
        std::vector<std::string> n;
        for (const char* t : {"X", "s", "1", "_", "-", ".", "$", "\"", "Data", "Node", "Names", "\x80", "End"}) { n.push_back(s + t); n.push_back(t + s); }
        for (size_t k = 1; k < s.size(); k++) { n.push_back(s.substr(0, k)); n.push_back(s.substr(k)); }
        for (size_t k = 0; k < s.size(); k++) { std::string t = s; t[k] ^= 0x20; n.push_back(t); }
        { std::string l = s, u = s; for (auto& x : l) x = static_cast<char>(tolower(x)); for (auto& x : u) x = static_cast<char>(toupper(x)); n.push_back(l); n.push_back(u); n.push_back(s + s); }
        const std::string name = c.free_of(n);
        for (auto& k : known) if (k == name) throw Skip{};
        if (name.compare(0, 3, "End") == 0 && name.size() > 3) throw Skip{};  // an end marker, not a section
        const bool ext = s == "NanoSplineFormat" || s == "Curves" || s == "Patches";
        std::vector<std::string> body = {"", "0\n", "0 0 0 0\n", "1\n", "0\n0\n3\n0\n1\n0\n", "4.1 0 8\n", "2.2 0 8\n"};
        if (!ext || EXT) {  // what the supported section holds in a file
            static std::map<std::string, std::string> cache;
            std::string& t = cache[mini::name(f) + s];
            if (t.empty()) {
                const MshSpec sp = mini::only(mini::fixed(f, 1, EXT), s == "Elements" ? "Both" : s);
                const std::string file = save_bytes(sp).bytes;
                const size_t p = file.find("$" + s + "\n"), q = file.rfind("$End" + s + "\n");
                t = p == std::string::npos || q == std::string::npos ? "1\n" : file.substr(p + s.size() + 2, q - p - s.size() - 2);
            }
            body.push_back(t);
        }
        const std::string x = c.free_of(body);
        if (own_marker_inside(x, name)) throw Skip{};
        const size_t at = b.gaps[c.free_of<size_t>({0, 1, b.gaps.size() - 1})];
        judge(c, b, with(b, {{at, section(name, x, "\n", false)}}), "section $" + name + " at byte " + std::to_string(at));
    }, 0});
    // two sections at all pairs of positions
    e.add({"two", [=](Ctx& c) {
        const Base* b; pick(c, b);
        const std::string n1 = c.free_of<std::string>({"Foo", "Periodic", "NodesX"}), n2 = c.free_of<std::string>({"Foo", "Bar", "Fo", "FooX"});
        const size_t a1 = gap(c, *b), a2 = gap(c, *b);
        const std::string x = c.free_of<std::string>({"1 2\n", "$EndBar\n", "$Bar\n", "$Nodes\n", ""}), y = c.free_of<std::string>({"", "$EndFo\n", "$Foo\n"});
        if (own_marker_inside(x, n1) || own_marker_inside(y, n2)) throw Skip{};
        judge(c, *b, with(*b, {{a1, section(n1, x, "\n", false)}, {a2, section(n2, y, "\n", false)}}), "two sections");
    }, 0});
    // every sequence of tokens in a body
    const size_t depth = th ? 4 : 3;
    e.add({"tokens", [=](Ctx& c) {
        static const std::vector<std::string> t = {"1", "$Nodes", "$EndNodes", "$End", "$", "$EndFo", "$EndFoox", "$Foo", "End", "Foo", "$MeshFormat", "$EndMeshFormat", std::string("\0\xff", 2), "$Bar", "$EndBar", "$$", "EndFoo"};
        const mini::Fmt f = c.free_of(mini::formats());
        const Base& b = base(c, f, 0, 0);
        const size_t at = b.gaps[c.free_of<size_t>({0, 2})];
        std::string body;
        for (size_t i = 0; i < depth; i++) { const uint32_t k = c.free_choose(static_cast<uint32_t>(t.size()) + 1); if (!k) break; body += t[k - 1]; body += c.free_of<std::string>({"\n", " "}); }
        if (own_marker_inside(body, "Foo")) throw Skip{};
        judge(c, b, with(b, {{at, section("Foo", body, "\n", false)}}), "body " + show(body));
    }, 0});
    // every pair of bytes, right before the end marker and at the start of the body
    e.add({"bytes", [=](Ctx& c) {
        const mini::Fmt f = c.free_of({mini::formats()[1], mini::formats()[3]});
        const Base& b = base(c, f, 0, 0);
        const size_t at = b.gaps[2];
        std::string body(2, 0);
        body[0] = static_cast<char>(c.free_choose(256)); body[1] = static_cast<char>(c.free_choose(256));
        const std::string lead = c.free_of<std::string>({"", "\x01\x02"});
        judge(c, b, with(b, {{at, section("Foo", lead + body, "\n", false)}}), "binary body " + show(body));
    }, 0});
    // bodies of every length
    e.add({"lengths", [=](Ctx& c) {
        const Base* b; pick(c, b);
        std::vector<size_t> n = {0};
        for (size_t k = 0; k < 18; k++) for (int d = -12; d <= 12; d++) { const long v = (1l << k) + d; if (v > 0) n.push_back(static_cast<size_t>(v)); }
        const size_t k = c.free_of(n);
        const std::string fill = c.free_of<std::string>({"x", " ", "\n", "$", std::string(1, '\0'), "$EndFo "});
        std::string body; while (body.size() < k) body += fill;
        body.resize(k);
        judge(c, *b, with(*b, {{b->gaps[1], section("Foo", body, "\n", c.free_flag())}}), "body of " + std::to_string(k) + " bytes");
    }, 0});
    // very many words in a section, and very many sections
    e.add({"huge", [=](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const Base& b = base(c, f, 0, 0);
        const size_t n = c.free_of(c.thorough ? std::vector<size_t>{1000, 100000, 1000000, 20000000} : std::vector<size_t>{1000, 100000, 1000000});
        const std::string word = c.free_of<std::string>({"1\n", "$EndFo ", "$Bar\n1\n$EndBar\n", "x"});
        const bool sections = c.free_flag();  // as many sections, or one
        std::string x;
        const std::string one = sections ? section(word[0] == '$' ? "Foo" : "Other", word, "\n", false) : word;
        const size_t times = sections ? n / 20 : n;
        x.reserve(times * one.size() + 20);
        for (size_t i = 0; i < times; i++) x += one;
        if (!sections) x = section("Foo", x, "\n", true);
        judge(c, b, with(b, {{b.gaps[1 + c.free_choose(2) * (b.gaps.size() - 2)], x}}), std::to_string(times) + (sections ? " sections of " : " words ") + show(word));
    }, 0, 60});
    // files of other contents: every deviation, with a section at every position
    e.add({"contents", [=](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        Opt o; o.version = f.version; o.file_type = f.type; o.ext = EXT; o.vary_values = false; o.rich = static_cast<int>(c.free_choose(2));
        const MshSpec s = Gen(c, o).spec();
        Base b;
        const Saved sv = save_bytes(s);
        c.check(sv.ok, "save refused: " + sv.error);
        b.bytes = sv.bytes;
        for (auto& x : ref::Decoder(sv.bytes).decode().extents) b.gaps.push_back(x.second + 1);
        b.plain = load_bytes(b.bytes);
        c.check(b.plain.ok, "the file without other sections is refused: " + b.plain.error);
        std::vector<Insert> in;
        const uint32_t where = c.free_choose(static_cast<uint32_t>(b.gaps.size()) + 1);
        const std::string x = c.free_of<std::string>({section("Periodic", "1\n0 2 1\n", "\n", false), section("Foo", std::string("\x01\0$Nodes \xff", 9), "\n", false)});
        if (where == b.gaps.size()) for (size_t g : b.gaps) in.push_back({g, x}); else in.push_back({b.gaps[where], x});
        judge(c, b, with(b, in), "other sections in other contents");
    }, th ? 2 : 1});
    // a section without its end marker cannot be skipped
    e.add({"open", [=](Ctx& c) {
        const Base* b; pick(c, b);
        const std::string name = c.free_of(names());
        const std::string body = c.free_of<std::string>({"", "1\n", "$End\n", "$End" + name + "x\n", "$EndNodes\n"});
        const std::string bytes = with(*b, {{gap(c, *b), "$" + name + "\n" + body}});
        c.evaluated(); c.state(bytes); c.nontrivial(fnv(bytes));
        if (c.want_desc) c.describe("$" + name + " without end marker\n" + hexdump(bytes, 5000));
        const Loaded l = load_bytes(bytes);
        c.step();
        c.check(!l.ok, "a section $" + name + " without end marker is accepted");
        c.traced(); c.tag("refused");
    }, 0});
    return run_main(e);
}
