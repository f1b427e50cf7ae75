// Driver of property U03: pixel positions, sizes and boxes, also at the limits of the integer type.
#include "bigint.hpp"
#include <climits>
#include <archon/util/pixel_pos.hpp>
#include <archon/util/pixel_size.hpp>
#include <archon/util/pixel_box.hpp>
using namespace archon; namespace px = util::pixel;
static vp::Rng* rng; static vp::Trace* t;
static const int W = 8 * int(sizeof(int));
static std::string nums(std::initializer_list<int> v) { std::string s = "["; bool f = true; for (int x : v) { if (!f) s += ','; f = false; s += vp::big_of(x); } return s + "]"; }
static std::string bools(std::initializer_list<bool> v) { std::string s = "["; bool f = true; for (bool x : v) { if (!f) s += ','; f = false; s += x ? "true" : "false"; } return s + "]"; }
static std::string n(px::Pos p) { return nums({ p.x, p.y }); } static std::string n(px::Size p) { return nums({ p.width, p.height }); }
static std::string n(px::Box b) { return nums({ b.pos.x, b.pos.y, b.size.width, b.size.height }); }
static int coord() { auto& r = *rng; return r.chance(40) ? int(r.range(-6, 6)) : r.chance(40) ? vp::some<int>(r) : r.chance(50) ? int(INT_MIN + r.range(0, 5)) : int(INT_MAX - r.range(0, 5)); }
static int len() { auto& r = *rng; return r.chance(45) ? int(r.range(0, 5)) : r.chance(50) ? vp::some_nonneg<int>(r) : int(INT_MAX - r.range(0, 5)); }
static bool fits(long long v) { return v >= INT_MIN && v <= INT_MAX; }
// A coordinate related to the given interval, such as at one of its ends
static int related(int x, int w) { auto& r = *rng; long long v = r.chance(50) ? x : (long long)x + w; v += r.range(-2, 2); return fits(v) ? int(v) : coord(); }
template<class T> std::string cmp(const T& a, const T& b) { return bools({ a == b, a != b, a < b, a <= b, a > b, a >= b }); }
int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Trace tr(a.trace); vp::Rng r(a.seed); t = &tr; rng = &r;
    auto box = [&](px::Box x, px::Box y) {
        px::Box c = y; bool ok = x.clip(c);
        tr.put(vp::Ev("box").i("w", W).raw("a", n(x)).raw("b", n(y)).b("valid", x.is_valid()).b("empty", x.is_empty()).b("isect", x.intersects(y)).raw("cont", bools({ x.contains(y), x.contained_in(y) }))
            .b("pix", x.contains_pixel_at(y.pos)).b("ok", ok).raw("clip", n(c)).raw("splice", n(px::splice(x, y))).raw("cmp", cmp(x, y)));
    };
    for (long e = 0; e < a.episodes; ++e) {
        tr.put(vp::Ev("reset"));
        for (long k = 0; k < a.steps; ++k) {
            if (r.chance(55)) {
                px::Box x(px::Pos(coord(), coord()), px::Size(len(), len())), y(px::Pos(coord(), coord()), px::Size(len(), len()));
                if (r.chance(70)) y.pos.x = related(x.pos.x, x.size.width); if (r.chance(70)) y.pos.y = related(x.pos.y, x.size.height);
                if (r.chance(30)) y.size.width = x.size.width; if (r.chance(30)) y.size.height = x.size.height;
                if (r.chance(10)) x.pos = {}; if (r.chance(30)) std::swap(x, y); if (r.chance(5)) y = x;
                box(x, y); continue;
            }
            auto v = [&] { return r.chance(50) ? coord() : r.chance(50) ? len() : vp::some<int>(r); };
            px::Pos p(v(), v()), q(v(), v()); px::Size s(v(), v()), u(v(), v());
            if (r.chance(30)) q.x = p.x; if (r.chance(30)) q.y = p.y; if (r.chance(30)) u.width = s.width; if (r.chance(30)) u.height = s.height; if (r.chance(15)) s.width = 0; if (r.chance(15)) s.height = 0;
            switch (r.below(10)) {
                case 0: case 1: {
                    bool add = p.can_add(s), sub = p.can_sub(s); tr.put(vp::Ev("can").i("w", W).raw("a", n(p)).raw("b", n(s)).b("add", add).b("sub", sub));
                    if (add && fits((long long)p.x + s.width) && fits((long long)p.y + s.height)) { px::Pos x = p; x += s; tr.put(vp::Ev("arith").i("w", W).s("op", "add").raw("a", n(p)).raw("b", n(s)).raw("r", n(p + s))); tr.put(vp::Ev("arith").i("w", W).s("op", "add").raw("a", n(p)).raw("b", n(s)).raw("r", n(x))); }
                    if (sub && fits((long long)p.x - s.width) && fits((long long)p.y - s.height)) { px::Pos x = p; x -= s; tr.put(vp::Ev("arith").i("w", W).s("op", "sub").raw("a", n(p)).raw("b", n(s)).raw("r", n(p - s))); tr.put(vp::Ev("arith").i("w", W).s("op", "sub").raw("a", n(p)).raw("b", n(s)).raw("r", n(x))); }
                    break;
                }
                case 2: if (fits((long long)p.x - q.x) && fits((long long)p.y - q.y)) tr.put(vp::Ev("arith").i("w", W).s("op", "sub").raw("a", n(p)).raw("b", n(q)).raw("r", n(p - q))); break;
                case 3: tr.put(vp::Ev("compare").raw("a", n(p)).raw("b", n(q)).raw("cmp", cmp(p, q))); break;
                case 4: tr.put(vp::Ev("compare").raw("a", n(s)).raw("b", n(u)).raw("cmp", cmp(s, u))); break;
                case 5: tr.put(vp::Ev("size").raw("a", n(s)).raw("b", n(u)).b("valid", s.is_valid()).b("zero", s.is_zero()).b("empty", s.is_empty()).raw("cont", bools({ s.contains(u), s.contained_in(u) }))); break;
                case 6: {
                    if (fits((long long)s.width + u.width) && fits((long long)s.height + u.height)) { px::Size x = s; x += u; tr.put(vp::Ev("arith").i("w", W).s("op", "add").raw("a", n(s)).raw("b", n(u)).raw("r", n(r.chance(50) ? x : s + u))); }
                    if (fits((long long)s.width - u.width) && fits((long long)s.height - u.height)) { px::Size x = s; x -= u; tr.put(vp::Ev("arith").i("w", W).s("op", "sub").raw("a", n(s)).raw("b", n(u)).raw("r", n(r.chance(50) ? x : s - u))); }
                    break;
                }
                case 7: {
                    int f = r.chance(60) ? int(r.range(-4, 4)) : v(); px::Size ff(f);
                    if (fits((long long)s.width * f) && fits((long long)s.height * f)) tr.put(vp::Ev("arith").i("w", W).s("op", "mul").raw("a", n(s)).raw("b", n(ff)).raw("r", n(r.chance(50) ? s * f : f * s)));
                    // Rounded down: not specified for operands of different signs
                    if (f > 0 && s.is_valid()) tr.put(vp::Ev("arith").i("w", W).s("op", "div").raw("a", n(s)).raw("b", n(ff)).raw("r", n(s / f)));
                    break;
                }
                case 8: {
                    auto put = [&](const char* op, auto x, auto y, auto z) { tr.put(vp::Ev("arith").i("w", W).s("op", op).raw("a", n(x)).raw("b", n(y)).raw("r", n(z))); };
                    put("min", s, u, px::min(s, u)); put("max", s, u, px::max(s, u)); put("splice", s, u, px::splice(s, u)); put("splice", p, q, px::splice(p, q)); break;
                }
                default: {
                    auto put = [&](const char* op, auto x, auto y, auto z) { tr.put(vp::Ev("arith").i("w", W).s("op", op).raw("a", n(x)).raw("b", n(y)).raw("r", n(z))); };
                    put("proj_x", s, u, s.proj_x()); put("proj_y", s, u, s.proj_y()); put("with_1", s, u, s.with_width(u.width)); put("with_2", s, u, s.with_height(u.height));
                    put("proj_x", p, q, p.proj_x()); put("proj_y", p, q, p.proj_y()); put("with_1", p, q, p.with_x(q.x)); put("with_2", p, q, p.with_y(q.y)); break;
                }
            }
        }
    }
}
