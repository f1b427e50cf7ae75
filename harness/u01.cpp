// Driver of property U01: rectangle packing.
#include "common.hpp"
#include <limits>
#include <memory>
#include <archon/core/integer.hpp>
#include <algorithm>
#include <cmath>
#include <type_traits>
#include <archon/util/rectangle_packer.hpp>
using namespace archon;
static vp::Rng* rng; static vp::Trace* t;
// Numbers of the specification are at most 31 bits wide
template<class T> long top() { return std::min<long long>(static_cast<long long>(std::min<unsigned long long>(std::numeric_limits<T>::max(), 0x7FFFFFFFull)), 0x7FFFFFFF); }
template<class T> struct P {
    util::RectanglePacker<T> p; std::size_t n = 0;
    P(long s, long m): p(T(s), T(m)) { t->put(vp::Ev("reset").i("s", s).i("m", m)); }
    void add(long w, long h) { p.add_rect(T(w), T(h)); ++n; t->put(vp::Ev("add").i("w", w).i("h", h)); }
    void clear() { p.reset(); n = 0; t->put(vp::Ev("clear")); }
    void suggest() { if (!std::is_same_v<T, long> && !std::is_same_v<T, unsigned>) t->put(vp::Ev("suggest").i("r", (long)p.suggest_bin_width()).i("max", (long)std::numeric_limits<T>::max())); }
    bool pack(long bw, long bh, long k)
    {
        t->flush(); bool ok = p.pack(T(bw), T(bh), std::size_t(k)); std::vector<std::vector<long>> pl, us;
        if (ok) {
            for (std::size_t i = 0; i < n; ++i) { std::size_t b = 0; T x, y, x2, y2; p.get_rect_pos(i, b, x, y); p.get_rect_pos(i, x2, y2); if (x != x2 || y != y2) x = y = std::numeric_limits<T>::max(); pl.push_back({ long(b), long(x), long(y) }); }
            for (std::size_t b = 0; b < p.get_num_bins(); ++b) us.push_back({ long(p.get_utilized_width(b)), long(p.get_utilized_height(b)) });
        }
        t->put(vp::Ev("pack").i("bw", bw).i("bh", bh).i("n", k).b("ok", ok).seq2("places", pl).seq2("used", us)); return ok;
    }
};
template<class T> void script(const vp::J& j)
{
    P<T> p(j[0].n, j[1].n); for (auto& x : j[4].a) p.add(x[0].n, x[1].n);
    long n = long(p.n); p.suggest();
    for (long k = n; k >= 0; --k) p.pack(j[2].n, j[3].n, k);
    for (long k = 0; k <= n; ++k) p.pack(j[2].n, j[3].n, k);
}
template<class T> void random_one(long steps)
{
    vp::Rng& r = *rng; long top = ::top<T>(); bool huge = r.chance(15);
    long unit = r.chance(70) ? 12 : std::max<long>(1, top / r.range(4, 40)); unit = std::min(unit, top / 4);
    P<T> p(r.chance(50) ? 0 : r.range(0, r.chance(80) ? 4 : unit), r.chance(50) ? 0 : r.range(0, r.chance(80) ? 4 : unit));
    auto some = [&] { long v = r.chance(10) ? r.range(0, 1) : r.range(0, unit); if (huge && r.chance(40)) v = top - r.range(0, 3); return std::min(v, top); };
    long lbw = 0, lbh = 0;
    for (long k = 0; k < steps; ++k) {
        long d = r.below(100);
        if (d < 4) p.clear();
        else if (d < 45) { long n = r.range(1, 9); while (n--) if (p.n < 40) p.add(some(), some()); }
        else if (d < 52) p.suggest();
        else {
            long bw = std::min(top, r.chance(10) ? some() : unit + r.range(0, unit * 3)), bh = r.chance(30) ? top : std::min(top, unit + r.range(0, unit * 3));
            if (r.chance(20)) { bw = (long)std::min<long long>(top, (long long)p.p.suggest_bin_width()); bh = top; if (r.chance(40)) bh = std::min(top, bw); }
            if (huge && r.chance(60)) bw = top;
            if (r.chance(25) && lbw) { bw = lbw; bh = lbh; } lbw = bw; lbh = bh;
            long n = long(p.n); int m = int(r.below(3));
            p.pack(bw, bh, m == 0 ? 1 : m == 1 ? n : r.range(0, 4));
            if (r.chance(40)) { p.pack(bw, bh, 1000); p.pack(bw, bh, r.range(0, 6)); }
        }
    }
}
int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Trace tr(a.trace); vp::Rng r(a.seed); t = &tr; rng = &r; long i = 0;
    for (const vp::J& j : a.scripts) switch (++i % 3) { case 0: script<int>(j); break; case 1: script<signed char>(j); break; default: script<unsigned short>(j); }
    for (long e = 0; e < a.episodes; ++e) switch (e % 6) { case 0: case 1: random_one<int>(a.steps); break; case 2: random_one<short>(a.steps); break; case 3: random_one<unsigned char>(a.steps); break;
        case 4: random_one<long>(a.steps); break; default: random_one<unsigned>(a.steps); }
}
