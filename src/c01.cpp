// C01: 4.1 save + load is the identity.
#include "gen.h"
#include "mini.h"
using namespace mc; using namespace sp; using namespace gen;
#ifdef MSHIO_EXT_NANOSPLINE
constexpr bool EXT = true;
#else
constexpr bool EXT = false;
#endif

static void round_trip(Ctx& c, const MshSpec& s) {
    const MshSpec want = stored(s);
    const std::string img = image(want);
    c.state(img);
    const Saved f = save_bytes(s);
    c.step();
    if (c.want_desc) c.describe("specification:\n" + dump(s).substr(0, 4000) + "\nfile:\n" + hexdump(f.bytes));
    c.check(f.ok, "save_msh refused a valid specification: " + f.kind + ": " + f.error);
    const Loaded l = load_bytes(f.bytes);
    c.step();
    c.check(l.ok, "load_msh refused the saved file: " + l.kind + ": " + l.error);
    if (image(l.spec) != img) c.fail("the loaded specification differs: " + first_diff(dump(want), dump(l.spec)));
    c.traced();
    c.tag(s.mesh_format.file_type ? "binary" : "ascii");
}

int main(int argc, char** argv) {
    Quiet quiet;
    Explorer e(parse(argc, argv));
    const bool th = e.opt.tier == "thorough";
    auto space = [&](const char* name, int rich, int values, int bound, bool free_shape) {
        (void)free_shape;
        e.add({name, [=](Ctx& c) {
            Opt o; o.file_type = static_cast<int>(c.free_choose(2)); o.rich = rich; o.values = values; o.ext = EXT; o.unique_entities = false;
            round_trip(c, Gen(c, o).spec());
        }, bound});
    };
    // every field of a rich specification, large alphabets
    space("values", 1, th ? 2 : 1, 1, false);
    // every pair (thorough: triple) of deviations from a small specification
    space("pairs", 0, 0, 2, false);
    if (th) space("rich-pairs", 1, 0, 2, false);
    e.add({"sizes", [](Ctx& c) {
        Opt o; o.file_type = static_cast<int>(c.free_choose(2)); o.unique_entities = false;
        o = sweep_opt(c, o, EXT);
        round_trip(c, Gen(c, o).spec());
    }, 0, 60});
    e.add({"size-pairs", [](Ctx& c) {
        Opt o; o.file_type = static_cast<int>(c.free_choose(2)); o.unique_entities = false;
        o = sweep_pair(c, o, EXT);
        round_trip(c, Gen(c, o).spec());
    }, 0});
    const auto strings = all_strings(th ? 5 : 3);
    e.add({"strings", [&strings](Ctx& c) {
        Opt o; o.file_type = static_cast<int>(c.free_choose(2)); o.vary_values = o.vary_counts = false; o.rich = 1; o.ext = EXT;
        MshSpec s = Gen(c, o).spec();
        const uint32_t where = c.free_choose(5);
        const std::string& t = c.free_of(strings);
        switch (where) {
        case 0: s.physical_groups[0].name = t; break;
        case 1: s.physical_groups[1].name = t; break;
        case 2: s.node_data[0].header.string_tags[0] = t; break;
        case 3: s.element_data[1].header.string_tags[1] = t; break;
        case 4: s.element_node_data[0].header.string_tags[1] = t; break;
        }
        round_trip(c, s);
    }, 0});
    // presence and small counts of every section: the full product
    e.add({"shapes", [](Ctx& c) {
        Opt o; o.file_type = static_cast<int>(c.free_choose(2)); o.vary_values = o.vary_counts = false; o.rich = static_cast<int>(c.free_choose(2)); o.ext = EXT;
        MshSpec s = Gen(c, o).spec();
        auto cut = [&](auto& v, uint32_t most) { const uint32_t n = c.free_choose(most + 1); if (v.size() < n) throw Skip{}; v.resize(n); };
        cut(s.physical_groups, 2);
        cut(s.entities.points, 1); cut(s.entities.curves, 1); cut(s.entities.surfaces, 1); cut(s.entities.volumes, 1);
        if (c.free_flag()) { s.nodes = Nodes(); s.elements = Elements(); }
        else if (c.free_flag()) s.elements = Elements();
        cut(s.node_data, 2); cut(s.element_data, 2); cut(s.element_node_data, 2);
        if (EXT) { cut(s.curves, 1); cut(s.patches, 1); }
        round_trip(c, s);
    }, 0});
    // every element type in every position of a three block section, with one and two elements
    e.add({"types", [](Ctx& c) {
        Opt o; o.file_type = static_cast<int>(c.free_choose(2)); o.vary_values = o.vary_counts = false; o.rich = 1; o.ext = EXT;
        MshSpec s = Gen(c, o).spec();
        std::vector<size_t> pool;
        for (auto& b : s.nodes.entity_blocks) pool.insert(pool.end(), b.tags.begin(), b.tags.end());
        s.elements = Elements();
        size_t tag = 100, k = 0;
        const uint32_t nb = 1 + c.free_choose(2);
        for (uint32_t i = 0; i < nb; i++) {
            const Type& t = c.free_of(types());
            ElementBlock b; b.element_type = t.type; b.entity_dim = t.dim; b.entity_tag = 3 + static_cast<int>(i);
            b.num_elements_in_block = c.free_choose(3);
            for (size_t j = 0; j < b.num_elements_in_block; j++) { b.data.push_back(tag++); for (size_t q = 0; q < t.nodes; q++) b.data.push_back(pool[k++ % pool.size()]); }
            s.elements.num_elements += b.num_elements_in_block;
            s.elements.entity_blocks.push_back(b);
        }
        s.elements.num_entity_blocks = nb; s.elements.min_element_tag = 100; s.elements.max_element_tag = 1000;
        round_trip(c, s);
    }, 0});
    // relations between the values of one array
    e.add({"patterns", [=](Ctx& c) {
        Opt o; o.file_type = static_cast<int>(c.free_choose(2)); o.vary_values = o.vary_counts = false; o.rich = 0; o.ext = EXT;
        round_trip(c, mini::patterns(c, Gen(c, o).spec()));
    }, 0});
    return run_main(e);
}
