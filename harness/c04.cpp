#include "common.hpp"
#include <limits>
#include <functional>
#include <archon/core/range_map.hpp>
using namespace archon;

constexpr int max_key = 23;

// base: the key that is number 0
template<class K> void episode(vp::Trace& trace, vp::Rng& rng, K base, const vp::J* script, long steps, int top)
{
    core::RangeMap<K, int> map;
    trace.put(vp::Ev("reset"));
    using W = long long;
    auto key = [&](int k) { return K(W(base) + k); };
    auto observe = [&](vp::Ev& ev) {
        std::vector<std::vector<long long>> rs; long out = 0;
        for (auto entry : map) {
            W a = W(entry.range().first) - W(base), b = W(entry.range().last) - W(base);
            if (a < 0 || b < 0 || a > max_key || b > max_key) { ++out; continue; }
            rs.push_back({ a, b, entry.value() });
            if (rs.size() > 200) break;
        }
        trace.put(ev.seq2("rs", rs).i("out", out));
    };
    auto update = [&](int a, int b, const std::string& f, int c) {
        auto func = [&](int& v) { if (f == "set") v = c; else v = (3 * v + c) % 1000; };
        typename core::RangeMap<K, int>::range_type r { key(a), key(b) };
        if (f == "set" && rng.chance(50)) { if (a == b && rng.chance(50)) map.assign(key(a), c); else map.assign(r, c); }
        else if (a == b && rng.chance(50)) map.update(key(a), func);
        else map.update(r, func);
        vp::Ev ev("update"); ev.i("a", a).i("b", b).s("f", f).i("c", c); observe(ev);
    };
    auto defrag = [&] {
        if (rng.chance(50)) map.defrag(); else map.defrag([](int x, int y) { return x == y; });
        vp::Ev ev("defrag"); observe(ev);
    };
    if (script) for (auto& o : script->a) { if (o["f"].s == "defrag") defrag(); else update(int(o["a"].n), int(o["b"].n), o["f"].s, int(o["c"].n)); }
    for (long k = 0; k < steps; ++k) {
        if (rng.chance(12)) { defrag(); continue; }
        int a = int(rng.range(0, top)), b = int(rng.chance(25) ? a : rng.range(a, std::min(top, a + int(rng.range(0, top)))));
        update(a, b, rng.chance(60) ? "set" : "mul", int(rng.range(0, rng.chance(70) ? 2 : 9)));
    }
}

int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Trace t(a.trace); vp::Rng r(a.seed);
    for (auto& s : a.scripts) switch (r.below(3)) {
        case 0: episode<int>(t, r, -5, &s, 3, 7); break;
        case 1: episode<unsigned char>(t, r, 0, &s, 3, 7); break;
        default: episode<long>(t, r, std::numeric_limits<long>::min(), &s, 3, 7);
    }
    for (long i = 0; i < a.episodes; ++i) {
        int top = int(r.range(2, max_key));
        switch (i % 7) {
        case 0: episode<int>(t, r, -10, nullptr, a.steps, top); break;
        case 1: episode<unsigned char>(t, r, 0, nullptr, a.steps, top); break;
        case 2: episode<unsigned char>(t, r, (unsigned char)(255 - top), nullptr, a.steps, top); break;
        case 3: episode<signed char>(t, r, -128, nullptr, a.steps, top); break;
        case 4: episode<short>(t, r, short(32767 - top), nullptr, a.steps, top); break;
        case 5: episode<int>(t, r, std::numeric_limits<int>::max() - top, nullptr, a.steps, top); break;
        case 6: episode<unsigned>(t, r, 0u - 1u - unsigned(top), nullptr, a.steps, top); break;
        }
    }
}
