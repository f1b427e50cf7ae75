// Numbers of any size in the form used by the module BigInt, made from the representation of
// integers without using the arithmetic under test.
#ifndef VP_BIGINT_HPP
#define VP_BIGINT_HPP
#include "common.hpp"
#include <type_traits>
#include <algorithm>
#include <archon/core/integer.hpp>
#include <archon/core/mul_prec_int.hpp>
namespace vp {
struct Bits { std::vector<bool> b; bool neg = false; }; // magnitude, little endian
inline std::string big(const Bits& x)
{
    std::vector<int> d; for (std::size_t i = 0; i < x.b.size(); i += 15) { int v = 0; for (std::size_t j = 0; j < 15 && i + j < x.b.size(); ++j) v |= int(x.b[i + j]) << j; d.push_back(v); }
    while (!d.empty() && d.back() == 0) d.pop_back();
    std::string s = "{\"s\":"; s += d.empty() ? "0" : x.neg ? "-1" : "1"; s += ",\"m\":["; for (std::size_t i = 0; i < d.size(); ++i) { if (i) s += ','; s += std::to_string(d[i]); } return s + "]}";
}
inline Bits twos(std::vector<bool> b, bool is_signed)
{
    Bits x; if (is_signed && !b.empty() && b.back()) { x.neg = true; bool c = true; for (std::size_t i = 0; i < b.size(); ++i) { bool v = !b[i]; b[i] = v != c; c = v && c; } } x.b = std::move(b); return x;
}
template<class T> struct IsMP : std::false_type {};
template<class T, int N, bool S> struct IsMP<archon::core::MulPrecInt<T, N, S>> : std::true_type {};
template<class T> struct TypeOf {  // fundamental
    static constexpr bool sign = std::is_signed_v<T>; static constexpr int width = std::is_same_v<T, bool> ? 1 : int(8 * sizeof(T));
    static std::vector<bool> bits(T v) { std::vector<bool> b; auto u = static_cast<unsigned long long>(v); for (int i = 0; i < width; ++i) b.push_back((u >> i) & 1); return b; }
    static T make(const std::vector<bool>& b) { if constexpr (std::is_same_v<T, bool>) return b[0]; else { unsigned long long u = 0; for (int i = 0; i < width; ++i) if (b[std::size_t(i)]) u |= 1ull << i; return static_cast<T>(u); } }
};
template<class P, int N, bool S> struct TypeOf<archon::core::MulPrecInt<P, N, S>> {
    using T = archon::core::MulPrecInt<P, N, S>; static constexpr bool sign = S; static constexpr int pw = int(8 * sizeof(P)); static constexpr int width = N * pw;
    static std::vector<bool> bits(T v) { std::vector<bool> b; auto ps = v.get_parts(); for (P p : ps) for (int i = 0; i < pw; ++i) b.push_back((p >> i) & 1); return b; }
    static T make(const std::vector<bool>& b) { std::array<P, N> ps {}; for (int i = 0; i < width; ++i) if (b[std::size_t(i)]) ps[std::size_t(i / pw)] = P(ps[std::size_t(i / pw)] | (P(1) << (i % pw))); return T(ps); }
};
template<class T> std::string big_of(T v) { return big(twos(TypeOf<T>::bits(v), TypeOf<T>::sign)); }
// Values concentrated around the points where something happens
template<class T> T some(Rng& r)
{
    constexpr int w = TypeOf<T>::width; std::vector<bool> b(std::size_t(w), false);
    auto set = [&](int i, bool v) { if (i >= 0 && i < w) b[std::size_t(i)] = v; };
    auto inc = [&](bool down) { for (int i = 0; i < w; ++i) { bool o = b[std::size_t(i)]; b[std::size_t(i)] = !o; if (o == down) break; } };
    auto neg = [&] { for (int i = 0; i < w; ++i) b[std::size_t(i)] = !b[std::size_t(i)]; inc(false); };
    switch (r.below(8)) {
        case 0: for (int i = 0; i < w; ++i) set(i, r.chance(50)); break;
        case 1: { int n = int(r.range(0, w)); for (int i = 0; i < n; ++i) set(i, r.chance(50)); break; }
        case 2: set(int(r.below(w)), true); break;                                       // power of two
        case 3: { int n = int(r.range(0, w)); for (int i = 0; i < n; ++i) set(i, true); break; }
        case 4: for (int i = 0; i < w; ++i) set(i, true); set(w - 1, !TypeOf<T>::sign); break; // greatest
        case 5: if (TypeOf<T>::sign) set(w - 1, true); break;                            // least
        case 6: { long v = r.range(0, 12); for (int i = 0; i < 4; ++i) set(i, (v >> i) & 1); break; }
        default: { int i = 0; while (i < w) { int n = int(r.range(1, 1 + w / 2)); bool v = r.chance(50); for (int j = 0; j < n; ++j) set(i + j, v); i += n; } break; } // runs
    }
    if (r.chance(25)) neg();
    if (r.chance(45)) { bool d = r.chance(50); long n = r.range(1, 3); while (n--) inc(d); }
    return TypeOf<T>::make(b);
}
template<class T> T some_nonneg(Rng& r) { for (;;) { T v = some<T>(r); if (!TypeOf<T>::sign || !TypeOf<T>::bits(v).back()) return v; } }
inline std::string big_of_int(long long v) { return big_of<long long>(v); }
}
#endif
