// The loader behind a C function, in a shared object, so that builds with different initial values of
// uninitialised variables can be compared inside one process.
#include "spec.h"
static size_t outcome(const char* b, size_t n, char* out, size_t cap, bool ext) {
    std::string r;
    try {
        const sp::Loaded l = sp::load_bytes(std::string(b, n));
        r = l.kind + "\n" + (l.ok ? sp::image(l.spec, ext) : l.error);
    } catch (...) {
        r = "not a std::exception\n";
    }
    memcpy(out, r.data(), std::min(cap, r.size()));
    return r.size();
}
extern "C" __attribute__((visibility("default"))) size_t mshio_outcome(const char* b, size_t n, char* out, size_t cap) { return outcome(b, n, out, cap, true); }
// The standard sections only.
extern "C" __attribute__((visibility("default"))) size_t mshio_standard(const char* b, size_t n, char* out, size_t cap) { return outcome(b, n, out, cap, false); }

// Saves a specification (the structures are the same in every build).
extern "C" __attribute__((visibility("default"))) size_t mshio_saved(const void* spec, char* out, size_t cap) {
    std::string r;
    try {
        const sp::Saved f = sp::save_bytes(*static_cast<const mshio::MshSpec*>(spec));
        r = f.kind + "\n" + (f.ok ? f.bytes : f.error);
    } catch (...) {
        r = "not a std::exception\n";
    }
    memcpy(out, r.data(), std::min(cap, r.size()));
    return r.size();
}
