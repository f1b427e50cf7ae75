// An element type whose objects are tracked: construction on top of a live object, use or
// destruction of an object that is not alive, and leaks are detected.
#ifndef VP_ELEM_HPP
#define VP_ELEM_HPP
#include <set>
#include <unordered_set>
namespace vp {

struct Boom {};

struct Life {
    static inline std::unordered_set<const void*> live;
    static inline long bad = 0;
    static inline long arm = -1; // Number of constructions until one throws
    static void born(const void* p) { if (!live.insert(p).second) ++bad; }
    static void died(const void* p) { if (live.erase(p) != 1) ++bad; }
    static void used(const void* p) { if (!live.count(p)) ++bad; }
    static void tick() { if (arm >= 0 && arm-- == 0) throw Boom(); }
};

// NM: nothrow movable (else only copyable, with copying that can throw)
template<bool NM> struct Elem {
    int v;
    Elem(): v(0) { Life::tick(); Life::born(this); }
    Elem(int x): v(x) { Life::tick(); Life::born(this); }
    Elem(const Elem& o): v(0) { Life::tick(); Life::used(&o); v = o.v; Life::born(this); }
    Elem(Elem&& o) noexcept requires NM: v(0) { Life::used(&o); v = o.v; o.v = -7; Life::born(this); }
    Elem& operator=(const Elem& o) { Life::used(this); Life::used(&o); v = o.v; return *this; }
    Elem& operator=(Elem&& o) noexcept requires NM { Life::used(this); Life::used(&o); int x = o.v; o.v = -7; v = x; return *this; }
    ~Elem() noexcept { Life::died(this); v = -9; }
    friend bool operator==(const Elem& a, const Elem& b) { Life::used(&a); Life::used(&b); return a.v == b.v; }
    friend bool operator<(const Elem& a, const Elem& b) { Life::used(&a); Life::used(&b); return a.v < b.v; }
};

template<bool NM> int val(const Elem<NM>& e) { Life::used(&e); return e.v; }
inline int val(int v) { return v; }

} // namespace vp
#endif
