// Drives the integer functions and multi-part integers.
#include "bigint.hpp"
#include <stdexcept>
#include <tuple>
using namespace archon;
using vp::TypeOf; using vp::big_of; using vp::some; using vp::some_nonneg;
static vp::Trace* t; static vp::Rng* rng;
template<class P, int N, bool S> using MP = core::MulPrecInt<P, N, S>;
template<class T> constexpr bool mp = vp::IsMP<T>::value;
template<class T> constexpr bool is_bool = std::is_same_v<T, bool>;

template<class L, class R, class Try, class Do> void checked1(const char* op, L a, R b, Try tr, Do d, int can)
{
    L v = a; bool ok = tr(v, b); L w = a; bool ok2 = true; try { d(w, b); } catch (std::overflow_error&) { ok2 = false; }
    if (ok != ok2 || TypeOf<L>::bits(v) != TypeOf<L>::bits(w) || (can >= 0 && bool(can) != ok)) { t->put(vp::Ev("disagreeing-variants").s("op", op).raw("a", big_of(a)).raw("b", big_of(b))); return; }
    vp::Ev ev("checked"); ev.s("op", op).raw("a", big_of(a)).raw("b", big_of(b)).raw("lo", big_of(core::int_min<L>())).raw("hi", big_of(core::int_max<L>())).b("ok", ok).raw("r", big_of(v)); t->put(ev);
}
template<class L, class R> void arith(vp::Rng& r)
{
    L a = some<L>(r); R b = some<R>(r);
    switch (r.below(6)) {
        case 0: checked1("add", a, b, [](L& x, R y) { return core::try_int_add(x, y); }, [](L& x, R y) { core::int_add(x, y); }, core::can_int_add(a, b)); break;
        case 1: checked1("sub", a, b, [](L& x, R y) { return core::try_int_sub(x, y); }, [](L& x, R y) { core::int_sub(x, y); }, core::can_int_sub(a, b)); break;
        case 2: checked1("mul", a, b, [](L& x, R y) { return core::try_int_mul(x, y); }, [](L& x, R y) { core::int_mul(x, y); }, core::can_int_mul(a, b)); break;
        case 3: if constexpr (!mp<L> && !mp<R>) { if (r.chance(70)) { b = R(r.range(0, 12)); if (r.chance(50)) a = L(r.range(-9, 9)); } checked1("pow", a, b, [](L& x, R y) { return core::try_int_pow(x, y); }, [](L& x, R y) { core::int_pow(x, y); }, -1); } break;
        default: { vp::Ev ev("compare"); bool v[6] = { core::int_equal(a, b), core::int_not_equal(a, b), core::int_less(a, b), core::int_less_equal(a, b), core::int_greater(a, b), core::int_greater_equal(a, b) };
            std::string s = "["; for (int i = 0; i < 6; ++i) { if (i) s += ','; s += v[i] ? "true" : "false"; } ev.raw("a", big_of(a)).raw("b", big_of(b)).raw("r", s + "]"); t->put(ev); }
    }
}
template<class F, class T> void cast(vp::Rng& r)
{
    F a = some<F>(r); T v {}; bool ok = core::try_int_cast(a, v); bool ok2 = true; T w {}; try { w = core::int_cast<T>(a); } catch (std::overflow_error&) { ok2 = false; }
    T y {}; try { core::int_cast(a, y); } catch (std::overflow_error&) {}
    T m = core::int_cast_a<T>(a); T lo = some<T>(r), hi = some<T>(r); if (core::int_less(hi, lo)) std::swap(lo, hi); T c = core::int_cast_clamp(a, lo, hi); T c2 {}; core::int_cast_clamp(a, c2, lo, hi); T ct {}; core::int_cast_clamp(a, ct);
    if (ok != ok2 || ok != core::can_int_cast<T>(a) || v != w || y != v || c != c2) { t->put(vp::Ev("disagreeing-variants").s("op", "cast").raw("a", big_of(a))); return; }
    vp::Ev ev("cast"); ev.raw("a", big_of(a)).raw("lo", big_of(core::int_min<T>())).raw("hi", big_of(core::int_max<T>())).b("ok", ok).raw("r", big_of(v)).raw("m", big_of(m)).i("tw", TypeOf<T>::width).b("ts", TypeOf<T>::sign)
        .raw("cl", big_of(lo)).raw("ch", big_of(hi)).raw("c", big_of(c)).raw("ct", big_of(ct)); t->put(ev);
}
template<class F, class T> void twos(vp::Rng& r)
{
    F a = some<F>(r); T v {}; T w {}; T m {}; bool ok = false, ok2 = true, ok3 = false, f = false, to = false;
    switch (r.below(3)) {
        case 0: to = true; ok = core::try_cast_to_twos_compl(a, v); ok3 = core::can_cast_to_twos_compl<T>(a); try { w = core::cast_to_twos_compl<T>(a); } catch (std::overflow_error&) { ok2 = false; } m = core::cast_to_twos_compl_a<T>(a); break;
        case 1: f = true; ok = core::try_cast_from_twos_compl(a, v); ok3 = core::can_cast_from_twos_compl<T>(a); try { w = core::cast_from_twos_compl<T>(a); } catch (std::overflow_error&) { ok2 = false; } m = core::cast_from_twos_compl_a<T>(a); break;
        default: f = to = true; ok = core::try_twos_compl_cast(a, v); ok3 = core::can_twos_compl_cast<T>(a); try { w = core::twos_compl_cast<T>(a); } catch (std::overflow_error&) { ok2 = false; } m = core::twos_compl_cast_a<T>(a); break;
    }
    if (ok != ok2 || ok != ok3 || v != w) { t->put(vp::Ev("disagreeing-variants").s("op", "twos").raw("a", big_of(a)).b("f", f).b("t", to)); return; }
    if (f && !to) m = T(m);
    vp::Ev ev("twos"); ev.raw("a", big_of(a)).b("f", f).i("fw", TypeOf<F>::width).b("fs", TypeOf<F>::sign).b("t", to).i("tw", TypeOf<T>::width).b("ts", TypeOf<T>::sign)
        .raw("lo", big_of(core::int_min<T>())).raw("hi", big_of(core::int_max<T>())).b("ok", ok).raw("r", big_of(v)).raw("m", big_of(m)); t->put(ev);
}
template<class T, class U> void division(vp::Rng& r)
{
    T a = some_nonneg<T>(r); U b = some_nonneg<U>(r); if (core::is_zero(b)) b = U(1);
    if (r.chance(50)) { vp::Ev ev("rounddiv"); ev.raw("a", big_of(a)).raw("b", big_of(b)).raw("up", big_of(core::int_div_round_up(a, b))); t->put(ev);
        if constexpr (!mp<T> && !mp<U>) { vp::Ev e2("roundhalf"); e2.raw("a", big_of(a)).raw("b", big_of(b)).raw("hd", big_of(core::int_div_round_half_down(a, b))); t->put(e2); } }
    else if constexpr (!mp<T> && !mp<U>) { T c = some<T>(r); U d = some<U>(r); if (core::is_zero(d)) d = U(1); vp::Ev ev("pmod"); ev.raw("a", big_of(c)).raw("b", big_of(d)).raw("r", big_of(core::int_periodic_mod(c, d))); t->put(ev); }
}
template<class T> void single(vp::Rng& r)
{
    T a = some<T>(r);
    switch (r.below(7)) {
        case 0: { T b = some_nonneg<T>(r); vp::Ev ev("sqrt"); ev.raw("a", big_of(b)).raw("r", big_of(core::int_sqrt(b))); t->put(ev); break; }
        case 1: { int base = int(r.chance(50) ? 10 : r.range(2, 36)); if constexpr (is_bool<T>) base = int(r.range(2, 36));
            vp::Ev ev("bits"); bool p2 = false; if constexpr (!mp<T>) p2 = core::int_is_power_of_two(a); else p2 = false;
            bool q[5] = { core::int_is_odd(a), core::is_negative(a), core::is_zero(a), core::int_is_min(a), core::int_is_max(a) };
            if (core::int_is_even(a) == q[0] || core::int_find_msd_pos(a, base) + 1 != core::int_num_digits(a, base)) t->put(vp::Ev("disagreeing-variants").s("op", "even").raw("a", big_of(a)));
            std::string s = "["; for (int i = 0; i < 5; ++i) { if (i) s += ','; s += q[i] ? "true" : "false"; }
            if constexpr (mp<T>) { auto b = TypeOf<T>::bits(a); p2 = std::count(b.begin(), b.end(), true) == 1 && !(TypeOf<T>::sign && b.back()); } // not available
            ev.raw("a", big_of(a)).i("vb", core::num_value_bits<T>()).i("msb", core::int_find_msb_pos(a)).b("p2", p2).raw("q", s + "]").i("base", base).i("d", core::int_num_digits(a, base)).raw("lo", big_of(core::int_min<T>())).raw("hi", big_of(core::int_max<T>())); t->put(ev); break; }
        case 2: { int n = int(r.range(-1, TypeOf<T>::width + 3)); vp::Ev ev("mask"); ev.i("n", n).raw("hi", big_of(core::int_max<T>())).raw("r", big_of(core::int_mask<T>(n))); t->put(ev); break; }
        case 3: if constexpr (!mp<T> && !TypeOf<T>::sign && !is_bool<T>) { int f = int(r.range(1, TypeOf<T>::width + 2)); if (f < TypeOf<T>::width) a = T(a & T((T(1) << f) - 1)); vp::Ev ev("extend"); ev.raw("a", big_of(a)).i("from", f).i("w", TypeOf<T>::width).raw("r", big_of(core::twos_compl_sign_extend(a, f))); t->put(ev); } break;
        case 4: if constexpr (!mp<T> && !TypeOf<T>::sign && !is_bool<T>) { int s = int(r.chance(80) ? r.range(0, TypeOf<T>::width + 8) : r.range(0, 400)); T v = a; core::int_logic_shift_left(v, s); vp::Ev ev("logic"); ev.raw("a", big_of(a)).raw("b", vp::big_of_int(s)).i("w", TypeOf<T>::width).raw("sl", big_of(v)); t->put(ev); } break;
        case 5: if constexpr (!mp<T> && !is_bool<T>) { int s = int(r.chance(80) ? r.range(0, TypeOf<T>::width + 8) : r.range(0, 400)); T b = some_nonneg<T>(r), v = b; core::int_logic_shift_right(v, s); vp::Ev ev("logicr"); ev.raw("a", big_of(b)).raw("b", vp::big_of_int(s)).raw("sr", big_of(v)); t->put(ev);
            int s2 = int(r.range(0, TypeOf<T>::width + 8)); checked1("shl", b, s2, [](T& x, int y) { return core::try_int_arith_shift_left(x, y); }, [](T& x, int y) { core::int_arith_shift_left(x, y); }, -1); } break;
        case 6: { std::vector<int> bases = { 2, 3, 8, 10, 16, 36 }; std::vector<int> d; for (int b : bases) d.push_back(core::int_max_digits<T>(b));
            vp::Ev ev("type"); ev.raw("lo", big_of(core::int_min<T>())).raw("hi", big_of(core::int_max<T>())).b("s", core::is_signed<T>()).i("w", core::int_width<T>()).seq("bases", bases).seq("d", d); t->put(ev); break; }
    }
}
template<class T> void multi(vp::Rng& r)
{
    T a = some<T>(r), b = some<T>(r); int s = 0; std::string op; T res {}; T c = a; bool same = true;
    switch (r.below(13)) {
        case 0: op = "add"; res = a + b; c += b; break;
        case 1: op = "sub"; res = a - b; c -= b; break;
        case 2: op = "mul"; res = a * b; c *= b; break;
        case 3: case 11: op = "quot"; if (b == T(0)) b = T(1); res = a / b; c /= b; same = a.divmod(b).quot == c && core::int_divmod(a, b).quot == c; break;
        case 4: case 12: op = "rem"; if (b == T(0)) b = T(1); res = a % b; c %= b; same = a.divmod(b).rem == c && core::int_divmod(a, b).rem == c; break;
        case 5: op = "and"; res = a & b; c &= b; break;
        case 6: op = "or"; res = a | b; c |= b; break;
        case 7: op = "xor"; res = a ^ b; c ^= b; break;
        case 8: op = r.chance(50) ? "not" : r.chance(80) ? "neg" : "pos"; res = op == "not" ? ~a : op == "neg" ? -a : +a; c = res; break;
        case 9: op = "shl"; s = int(r.below(TypeOf<T>::width)); res = a << s; c <<= s; break;
        default: op = "shr"; a = some_nonneg<T>(r); c = a; s = int(r.below(TypeOf<T>::width)); res = a >> s; c >>= s; break;
    }
    if (!same || TypeOf<T>::bits(c) != TypeOf<T>::bits(res)) { t->put(vp::Ev("disagreeing-variants").s("op", op).raw("a", big_of(a)).raw("b", big_of(b))); return; }
    bool sh = op == "shl" || op == "shr";
    vp::Ev ev("mp"); ev.s("op", op).raw("a", big_of(a)).raw("b", sh ? vp::big_of_int(s) : big_of(b)).i("w", TypeOf<T>::width).b("s", TypeOf<T>::sign).raw("r", big_of(res)); t->put(ev);
    T d = r.chance(30) ? a : b; bool v[6] = { a == d, a != d, a < d, a <= d, a > d, a >= d }; std::string q = "["; for (int i = 0; i < 6; ++i) { if (i) q += ','; q += v[i] ? "true" : "false"; }
    vp::Ev e2("compare"); e2.raw("a", big_of(a)).raw("b", big_of(d)).raw("r", q + "]"); t->put(e2);
}
using Fn = void (*)(vp::Rng&);
static std::vector<Fn> pair_fns, single_fns, multi_fns;
template<class A, class B> void reg_pair()
{
    pair_fns.push_back(&arith<A, B>); pair_fns.push_back(&cast<A, B>);
    if constexpr (!mp<A> && !mp<B>) { pair_fns.push_back(&division<A, B>); if constexpr (!is_bool<A> && !is_bool<B>) pair_fns.push_back(&twos<A, B>); }
    else if constexpr (std::is_same_v<A, B>) pair_fns.push_back(&division<A, B>);
}
template<class... T> struct List {};
template<class A, class... B> void pairs1(List<B...>) { (reg_pair<A, B>(), ...); }
template<class... A, class L> void pairs(List<A...>, L l) { (pairs1<A>(l), ...); }
template<class... A> void singles(List<A...>) { (single_fns.push_back(&single<A>), ...); }
template<class... A> void multis(List<A...>) { (multi_fns.push_back(&multi<A>), ...); }
template<class... A> void selfs(List<A...>) { (reg_pair<A, A>(), ...); }
int main(int argc, char** argv)
{
    using F = List<bool, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long>;
    using F2 = List<char, char16_t, long long, unsigned long long>; using F3 = List<signed char, unsigned, long>;
    using M = List<MP<unsigned char, 1, false>, MP<unsigned char, 1, true>, MP<unsigned char, 2, true>, MP<unsigned char, 3, false>, MP<unsigned char, 5, true>, MP<unsigned short, 1, true>, MP<unsigned short, 3, false>, MP<unsigned short, 4, true>,
        MP<unsigned, 1, false>, MP<unsigned, 2, true>, MP<unsigned, 3, false>, MP<unsigned, 4, true>, MP<unsigned long, 1, true>, MP<unsigned long, 2, false>, MP<unsigned long, 2, true>, MP<unsigned long, 3, true>, MP<unsigned long long, 4, false>>;
    using M2 = List<MP<unsigned char, 2, true>, MP<unsigned char, 3, false>, MP<unsigned, 2, true>, MP<unsigned long, 2, false>>;
    // Compiled in parts, to save time
#if PART == 0
    pairs(List<bool, signed char, unsigned char, short>(), F()); singles(F()); multis(M());
#elif PART == 1
    pairs(List<unsigned short, int, unsigned, long, unsigned long>(), F()); selfs(F2()); singles(F2());
    multis(List<MP<unsigned char, 2, false>, MP<unsigned short, 2, true>>());
#else
    selfs(M()); singles(M()); pairs(F3(), M2()); pairs(M2(), F3()); pairs(M2(), M2());
    multis(List<MP<unsigned char, 4, true>, MP<unsigned short, 2, false>, MP<unsigned, 2, false>, MP<unsigned long, 1, false>, MP<unsigned long, 4, true>>());
#endif
    vp::Args a(argc, argv); vp::Trace tr(a.trace); vp::Rng r(a.seed); t = &tr; rng = &r;
    for (long e = 0; e < a.episodes; ++e) {
        tr.put(vp::Ev("reset"));
        for (long k = 0; k < a.steps; ++k) { long w = r.below(10); (w < 5 ? pair_fns : w < 7 ? single_fns : multi_fns)[std::size_t(r.below(long((w < 5 ? pair_fns : w < 7 ? single_fns : multi_fns).size())))](r); }
    }
}
