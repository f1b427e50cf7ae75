// Driver of property D01: recovery of wrapped-around timestamps.
#include "bigint.hpp"
#include <limits>
#include <optional>
#include <algorithm>
#include <archon/display/noinst/timestamp_unwrapper.hpp>
using namespace archon;
static vp::Rng* rng; static vp::Trace* t;
using I = __int128;
static std::string big128(I v) { vp::Bits b; b.neg = v < 0; unsigned __int128 u = v < 0 ? (unsigned __int128)(-v) : (unsigned __int128)v; for (int i = 0; i < 127; ++i) b.b.push_back((u >> i) & 1); return vp::big(b); }
// hist: true time and ns of second clock since the first timestamp
template<class T, int N> void run(const std::vector<std::pair<I, I>>& hist, long start_ns)
{
    using U = display::impl::TimestampUnwrapper<T, N>; using D = typename U::time_point_type::duration; static_assert(std::is_same_v<D, std::chrono::nanoseconds>);
    U u; t->put(vp::Ev("reset").i("n", N)); std::optional<typename U::Session> ses; I mod = I(1) << N;
    for (auto& [x, ns] : hist) {
        typename U::time_point_type now { D(start_ns + (long)ns) };
        if (!ses || rng->chance(40)) ses.emplace(u, now); else ses->reset_now(now);
        T v = T(x % mod); t->flush(); auto r = ses->unwrap_next_timestamp(v).count();
        t->put(vp::Ev("unwrap").raw("true", big128(x)).raw("t", big128(x % mod)).raw("ns", big128(ns)).raw("r", big128(r)));
    }
}
static const I ms = 1000000;
template<class T, int N> void random_one(long steps)
{
    vp::Rng& r = *rng; I mod = I(1) << N; std::vector<std::pair<I, I>> h;
    const I limit = I(1) << 41;     // of elapsed milliseconds: within the range of the clock in nanoseconds
    auto upto = [&](I n) -> I { if (n <= 0) return 0; if (n > (I(1) << 62)) n = I(1) << 62; return I(r.next() % (unsigned long long)(n)); };
    I x = upto(mod), x0 = 0, ns = 0; if (r.chance(50)) x += mod * upto(N < 50 ? 1000 : 4); if (r.chance(20)) x = mod - 1 - upto(std::min<I>(mod, 3)); if (N >= 63) x = upto(I(1) << 62);
    I tol = ((mod - 1) * ms - 1) / 2; // greatest admitted distance in ns
    for (long k = 0; k < steps; ++k) {
        if (k > 0) {
            I d; switch (r.below(6)) { case 0: d = 0; break; case 1: d = upto(4); break; case 2: d = mod - 2 + upto(5); break; case 3: d = upto(mod); break; case 4: d = mod / 2 - 2 + upto(5); break; default: d = mod * upto(20) + upto(mod); }
            if (d < 0) d = 0; if (N >= 63 || x - x0 + d > limit) d = upto(std::min<I>(limit - (x - x0), 10)); if (d < 0) d = 0;
            x += d;
            I el = (x - x0) * ms, lo = el - tol, hi = el + tol; if (lo < ns) lo = ns; if (hi > limit * ms * 2) hi = limit * ms * 2; if (hi < lo) { x -= d; continue; }
            switch (r.below(5)) { case 0: ns = lo; break; case 1: ns = hi; break; case 2: ns = std::clamp<I>(el + upto(1000000), lo, hi); break; case 3: ns = std::clamp<I>(el, lo, hi); break; default: ns = lo + (hi > lo ? I(r.next() % (unsigned long long)std::min<I>(hi - lo, I(1) << 62)) : 0); }
        }
        else x0 = x;
        h.emplace_back(x, ns);
        if (ns > limit * ms) break;
    }
    run<T, N>(h, r.chance(50) ? 0 : long(r.next() >> 4));
}
template<class T> using L = std::numeric_limits<T>;
using Fn = void (*)(long);
template<class T> void reg(std::vector<Fn>& v) { constexpr int w = L<T>::digits; v.push_back(&random_one<T, w>); v.push_back(&random_one<T, w - 1>); v.push_back(&random_one<T, w - 2>); v.push_back(&random_one<T, w / 2>); v.push_back(&random_one<T, 1>); v.push_back(&random_one<T, 3>); }
int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Trace tr(a.trace); vp::Rng r(a.seed); t = &tr; rng = &r; int n = 0;
    for (const vp::J& j : a.scripts) {
        // The distance is given in whole milliseconds; the fraction must leave it within the half period
        std::vector<std::pair<I, I>> h; I mod = j[0].n, last = 0; I tol = ((mod - 1) * ms - 1) / 2;
        for (auto& e : j[1].a) { I ns = I(e[1].n) * ms; I x0 = h.empty() ? I(e[0].n) : h[0].first, el = (I(e[0].n) - x0) * ms; if (!h.empty()) { ns = std::clamp<I>(ns + r.range(-499999, 499999), el - tol, el + tol); if (ns < last) ns = last; } last = ns; h.emplace_back(e[0].n, ns); }
        switch (j[0].n) { case 2: n++ % 2 ? run<unsigned char, 1>(h, 5) : run<int, 1>(h, 0); break; case 4: n++ % 2 ? run<unsigned char, 2>(h, 5) : run<unsigned long, 2>(h, 0); break; default: n++ % 2 ? run<unsigned short, 3>(h, 5) : run<signed char, 3>(h, 99); }
    }
    std::vector<Fn> f; reg<signed char>(f); reg<unsigned char>(f); reg<short>(f); reg<unsigned short>(f); reg<int>(f); reg<unsigned>(f); reg<long>(f); reg<unsigned long>(f); reg<unsigned long long>(f);
    for (long e = 0; e < a.episodes; ++e) f[std::size_t(r.below(long(f.size())))](a.steps);
}
