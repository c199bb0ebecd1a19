// C09: what is unsupported or unrepresentable is refused with a library exception, on load and on save.
#define ALLOC_COUNT
#include "alloc_count.h"
#include "mini.h"
#include "oracle.h"
using namespace mc; using namespace sp; using namespace gen;
#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool EXT = true;
#else
constexpr bool EXT = false;
#endif

static bool library(const std::string& kind) { return kind == "InvalidFormat" || kind == "UnsupportedFeature" || kind == "CorruptData"; }

// want: 1 accept, 0 refuse
static Loaded load_expect(Ctx& c, const std::string& bytes, int want, const std::string& what) {
    c.state(bytes);
    if (c.want_desc) c.describe(what + "\ninput:\n" + hexdump(bytes, 4000));
    Loaded l;
    { alloc::Cap cap(64u << 20); l = load_bytes(bytes); }
    c.step();
    if (want == 0) {
        c.check(!l.ok, "loaded: " + what);
        c.check(library(l.kind), "not refused with a library exception (" + l.error + "): " + what);
    } else c.check(l.ok, "refused (" + l.error + "): " + what);
    c.traced();
    c.tag((want ? "load accepts " : "load refuses ") + what.substr(0, what.find(' ')));
    return l;
}
static void save_expect(Ctx& c, const MshSpec& s, int want, const std::string& what) {
    c.state(image(s));
    if (c.want_desc) c.describe(what + "\nspecification:\n" + dump(s).substr(0, 5000));
    const Saved f = save_bytes(s);
    c.step();
    if (want == 0) {
        c.check(f.kind != "ok", "saved: " + what);
        c.check(library(f.kind), "not refused with a library exception (" + f.error + "): " + what);
    } else {
        c.check(f.kind == "ok", "refused (" + f.error + "): " + what);
        const Loaded l = load_bytes(f.bytes);
        c.step();
        c.check(l.ok, "the saved file cannot be read (" + l.error + "): " + what);
        const std::string m = oracle::mismatch(ref::content_of(s, EXT), l.spec, EXT);
        c.check(m.empty(), "the saved file holds something else (" + m + "): " + what);
    }
    c.traced();
    c.tag((want ? "save accepts " : "save refuses ") + what.substr(0, what.find(' ')));
}

static const std::vector<std::string>& versions() {
    static const std::vector<std::string> v = [] {
        std::vector<std::string> r = {"2.2", "4.1", "", "0", "1", "1.0", "2", "4", "22", "41", "2.2.0", "4.1.0", "4.1.1", "v4.1", "4.1x", "2.2x", "x", "2,2", "4,1", "24.1", "42.2", "-2.2", "-4.1", "4.1 ", "nan", "$", "2.2 4.1", "4.", ".1", "2-2", "4_1"};
        for (int a = 0; a < 10; a++) for (int b = 0; b < 20; b++) { const std::string s = std::to_string(a) + "." + std::to_string(b); if (s != "2.2" && s != "4.1" && s != "4.10") r.push_back(s); }
        return r;
    }();
    return v;
}
static std::vector<int> type_numbers(bool th) {
    std::vector<int> v;
    for (int i = -300; i <= (th ? 70000 : 1100); i++) v.push_back(i);
    for (int k = 8; k < 31; k++) for (int e : {-1, 0, 1, 15, 31}) { v.push_back((1 << k) + e); v.push_back(-(1 << k) + e); }
    for (int e = 0; e < 40; e++) { v.push_back(2147483647 - e); v.push_back(-2147483647 - 1 + e); }
    return v;
}
static const std::vector<uint64_t>& tags() {
    static const std::vector<uint64_t> v = [] {
        std::vector<uint64_t> r = {1, 2, 255, 256, 65535, 65536, 2147483646, 2147483647, 2147483648ull, 2147483649ull, 4294967294ull, 4294967295ull, 4294967296ull, 4294967297ull, 4294967301ull, 6442450944ull, 9223372036854775807ull, 9223372036854775808ull, 18446744071562067968ull, 18446744073709551614ull, 18446744073709551615ull};
        for (int k = 33; k < 64; k++) { r.push_back(1ull << k); r.push_back((1ull << k) + 5); }
        return r;
    }();
    return v;
}

int main(int argc, char** argv) {
    Quiet quiet;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    e.add({"load-version", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const std::string v = c.free_of(versions());
        MshSpec s = mini::only(mini::fixed(f, 0, EXT), c.free_of(mini::sections(EXT)));
        mini::Encoded x = mini::encode(s, EXT);
        const std::string head = std::string("$MeshFormat\n") + f.version;
        std::string b = "$MeshFormat\n" + v + x.bytes.substr(head.size());
        const bool other = (v == "2.2" || v == "4.1") && v != f.version;
        if (other || v.find(' ') != std::string::npos) throw Skip{};  // another file altogether
        load_expect(c, b, v == f.version, "version " + show(v));
    }, 0});
    e.add({"save-version", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        MshSpec s = mini::only(mini::fixed(f, static_cast<int>(c.free_choose(2)), EXT), c.free_of(mini::sections(EXT)));
        s.mesh_format.version = c.free_of(versions());
        const std::string v = s.mesh_format.version;
        save_expect(c, s, v == "2.2" || v == "4.1", "version " + show(v));
    }, 0});
    e.add({"data-size", [](Ctx& c) {
        const int ft = static_cast<int>(c.free_choose(2));
        MshSpec s = mini::only(mini::fixed({"4.1", ft}, 0, EXT), c.free_of(mini::sections(EXT)));
        std::vector<int> sizes; for (int i = -2; i <= 130; i++) sizes.push_back(i);
        for (int i : {256, 264, 65544, 16777224, 2147483647, -2147483647 - 1, -2147483640, -8}) sizes.push_back(i);
        s.mesh_format.data_size = c.free_of(sizes);
        load_expect(c, mini::encode(s, EXT).bytes, s.mesh_format.data_size == 8, "data-size " + std::to_string(s.mesh_format.data_size) + " in version 4.1");
    }, 0});
    e.add({"endianness", [](Ctx& c) {
        const mini::Fmt f = c.free_of<mini::Fmt>({{"4.1", 1}, {"2.2", 1}});
        mini::Encoded x = mini::encode(mini::only(mini::fixed(f, 0, EXT), c.free_of(mini::sections(EXT))), EXT);
        std::string mark(4, 0);
        if (c.free_flag()) { const uint32_t at = c.free_choose(4); mark[0] = 1; mark[at] = static_cast<char>(c.free_choose(256)); }
        else for (auto& m : mark) { static const std::vector<int> b = {0, 1, 2, 255, 128}; m = static_cast<char>(c.free_of(b)); }
        const size_t at = x.bytes.find(std::string("\1\0\0\0", 4));
        const std::string b = x.bytes.substr(0, at) + mark + x.bytes.substr(at + 4);
        if (isspace(static_cast<unsigned char>(mark[0]))) throw Skip{};
        load_expect(c, b, mark == std::string("\1\0\0\0", 4), "endianness mark " + show(mark));
    }, 0});
    const auto numbers = type_numbers(th);
    // element blocks of every type number, also behind and before good blocks
    e.add({"types", [&numbers](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const bool save = c.free_flag();
        const uint32_t place = c.free_choose(3), count = 1 + c.free_choose(2);
        const int n = c.free_of(numbers);
        const Type* t = type_info(n);
        const size_t per = t ? t->nodes : 3;
        const bool v22 = std::string(f.version) == "2.2";
        if (save) {
            MshSpec s = mini::only(mini::fixed(f, 1, EXT), "Both");
            if (!v22 || f.type) for (auto& b : s.elements.entity_blocks) (void)b;
            ElementBlock b; b.element_type = n; b.entity_dim = t ? t->dim : 2; b.entity_tag = 3; b.num_elements_in_block = count;
            for (uint32_t i = 0; i < count; i++) { b.data.push_back(2000 + i); for (size_t k = 0; k < per; k++) b.data.push_back(s.nodes.entity_blocks[0].tags[k % 2]); }
            auto& v = s.elements.entity_blocks;
            v.insert(place == 0 ? v.begin() : place == 1 ? v.begin() + 1 : v.end(), b);
            s.elements.num_entity_blocks++; s.elements.num_elements += count;
            s.elements.max_element_tag = 2001;
            save_expect(c, s, t != nullptr, "element type " + std::to_string(n));
            return;
        }
        // a file with good elements before or after the one of this type
        ref::File file = ref::content_of(mini::only(mini::fixed(f, 1, false), "Both"), false);
        ref::Style st;
        std::string body;
        auto num = [&](int64_t x) { body += std::to_string(x) + " "; };
        auto i32 = [&](int64_t x) { const int32_t v = static_cast<int32_t>(x); body.append(reinterpret_cast<const char*>(&v), 4); };
        auto u64 = [&](uint64_t x) { body.append(reinterpret_cast<const char*>(&x), 8); };
        auto block = [&](int type, size_t nodes, uint32_t m) {
            if (v22 && !f.type) for (uint32_t i = 0; i < m; i++) { num(10 + i); num(type); num(2); num(4); num(5); for (size_t k = 0; k < nodes; k++) num(17); body += "\n"; }
            else if (v22) { i32(type); i32(m); i32(2); for (uint32_t i = 0; i < m; i++) { i32(10 + i); i32(4); i32(5); for (size_t k = 0; k < nodes; k++) i32(17); } }
            else if (!f.type) { num(2); num(5); num(type); num(m); body += "\n"; for (uint32_t i = 0; i < m; i++) { num(10 + i); for (size_t k = 0; k < nodes; k++) num(17); body += "\n"; } }
            else { i32(2); i32(5); i32(type); u64(m); for (uint32_t i = 0; i < m; i++) { u64(10 + i); for (size_t k = 0; k < nodes; k++) u64(17); } }
        };
        const uint32_t good = place == 0 ? 0u : 1u;
        const uint32_t total = count + (place == 1 ? 2 : place == 2 ? 1 : 0);
        const uint32_t blocks = 1 + (place == 1 ? 2 : place == 2 ? 1 : 0);
        if (v22) body += std::to_string(total) + "\n";
        else if (!f.type) { num(blocks); num(total); num(10); num(11); body += "\n"; }
        else { u64(blocks); u64(total); u64(10); u64(11); }
        if (good) block(2, 3, 1);
        block(n, per, count);
        if (place == 1) block(2, 3, 1);
        file.order = {"MeshFormat", "Nodes"};
        const std::string bytes = ref::Encoder(file, st).file() + "$Elements\n" + body + "\n$EndElements\n";
        load_expect(c, bytes, t != nullptr, "element type " + std::to_string(n));
    }, 0});
    e.add({"entities-22", [](Ctx& c) {
        const mini::Fmt f = c.free_of<mini::Fmt>({{"2.2", 0}, {"2.2", 1}});
        MshSpec s = mini::only(mini::fixed(f, 0, false), c.free_of(mini::sections(false)));
        MshSpec t = mini::only(mini::fixed({"4.1", f.type}, static_cast<int>(c.free_choose(2)), false), "Entities");
        auto cut = [&](auto& v) { if (c.free_flag()) v.clear(); };
        cut(t.entities.points); cut(t.entities.curves); cut(t.entities.surfaces); cut(t.entities.volumes);
        ref::File a = ref::content_of(s, false), b;
        b.format = t.mesh_format; b.content = t; b.order = {"Entities"};
        ref::Style st;
        ref::Encoder ea(a, st), eb(b, st);
        std::string bytes;
        const uint32_t at = 1 + c.free_choose(static_cast<uint32_t>(a.order.size()));
        size_t k = 0;
        for (auto& n : a.order) { if (k++ == at) bytes += eb.section("Entities") + "\n"; bytes += ea.section(n) + "\n"; }
        if (k == at) bytes += eb.section("Entities") + "\n";
        load_expect(c, bytes, 0, "entities in version 2.2");
    }, 0});
    e.add({"int-tags", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        const std::string n = c.free_of<std::string>({"NodeData", "ElementData", "ElementNodeData"});
        MshSpec s = mini::only(mini::fixed(f, static_cast<int>(c.free_choose(2)), EXT), n);
        auto& v = n == "NodeData" ? s.node_data : n == "ElementData" ? s.element_data : s.element_node_data;
        Data& d = v[c.free_choose(static_cast<uint32_t>(v.size()))];
        const uint32_t keep = c.free_choose(5);
        const uint32_t entries = c.free_choose(2);
        if (!entries) { d.entries.clear(); d.header.int_tags[2] = 0; }
        while (d.header.int_tags.size() < keep) d.header.int_tags.push_back(7);
        d.header.int_tags.resize(keep);
        load_expect(c, mini::encode(s, EXT).bytes, keep >= 3, "data section with " + std::to_string(keep) + " integer tags");
    }, 0});
    // tags around the limit of 32 bits in every field
    e.add({"tags", [](Ctx& c) {
        const mini::Fmt f = c.free_of(mini::formats());
        MshSpec s = mini::fixed(f, static_cast<int>(c.free_choose(2)), EXT);
        const uint32_t field = c.free_choose(6);
        const uint64_t t = c.free_of(tags());
        const bool last = c.free_flag();
        const bool v22 = s.mesh_format.version == "2.2";
        bool narrow = f.type == 1;
        auto pick = [&](auto& v) -> auto& { return last ? v.back() : v.front(); };
        switch (field) {
        case 0: { auto& b = pick(s.nodes.entity_blocks); pick(b.tags) = t; narrow = narrow && v22; break; }
        case 1: { auto& b = pick(s.elements.entity_blocks); const size_t w = type_info(b.element_type)->nodes + 1; b.data[last ? b.data.size() - w : 0] = t; narrow = narrow && v22; break; }
        case 2: { auto& b = pick(s.elements.entity_blocks); b.data[last ? b.data.size() - 1 : 1] = t; narrow = narrow && v22; break; }
        case 3: pick(pick(s.node_data).entries).tag = t; break;
        case 4: pick(pick(s.element_data).entries).tag = t; break;
        case 5: pick(pick(s.element_node_data).entries).tag = t; break;
        }
        tag_range(s, s.nodes.min_node_tag, s.nodes.max_node_tag, s.elements.min_element_tag, s.elements.max_element_tag);
        static const char* names[6] = {"node", "element", "connectivity", "node data", "element data", "element node data"};
        save_expect(c, s, !narrow || t <= 2147483647ull, std::string("tag ") + std::to_string(t) + " in " + names[field] + ", " + mini::name(f));
    }, 0});
    // two unrepresentable things at once are refused too
    e.add({"tag-pairs", [](Ctx& c) {
        MshSpec s = mini::fixed({"2.2", 1}, 1, EXT);
        const std::vector<uint64_t> menu = {0, 2147483647, 2147483648ull, 4294967296ull + 17, 18446744073709551615ull};
        auto z = [&](size_t& x) { const uint64_t t = c.free_of(menu); if (t) x = t; return t > 2147483647ull; };
        bool bad = false;
        bad |= z(s.nodes.entity_blocks[1].tags[1]); bad |= z(s.elements.entity_blocks[1].data[0]); bad |= z(s.elements.entity_blocks[2].data[2]);
        bad |= z(s.node_data[0].entries[1].tag); bad |= z(s.element_node_data[1].entries[0].tag);
        tag_range(s, s.nodes.min_node_tag, s.nodes.max_node_tag, s.elements.min_element_tag, s.elements.max_element_tag);
        save_expect(c, s, !bad, "tags in 2.2 binary");
    }, 0});
    return run_main(e);
}
