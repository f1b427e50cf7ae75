// Driver for values as text: core/integer_formatter.hpp, integer_parser.hpp, as_int.hpp,
// value_parser.hpp, as_list.hpp, and quote.hpp.
#include "bigint.hpp"
#include <sstream>
#include <locale>
#include <limits>
#include <archon/core/char_mapper.hpp>
#include <archon/core/integer_formatter.hpp>
#include <archon/core/integer_parser.hpp>
#include <archon/core/as_int.hpp>
#include <archon/core/as_list.hpp>
#include <archon/core/value_parser.hpp>
#include <archon/core/quote.hpp>
using namespace archon;
using MPU = core::MulPrecInt<std::uint16_t, 3, false>; using MPS = core::MulPrecInt<std::uint32_t, 3, true>;

template<class C> std::string codes(std::basic_string_view<C> s)
{
    std::string o = "["; const char* sep = "";
    for (C c : s) { o += sep + std::to_string(long(std::make_unsigned_t<C>(c))); sep = ","; }
    return o + "]";
}
template<class C> std::string codes(const std::basic_string<C>& s) { return codes(std::basic_string_view<C>(s)); }
template<class C> std::basic_string<C> conv(std::string_view s) { std::basic_string<C> o; for (char c : s) o += C(static_cast<unsigned char>(c)); return o; }
std::string bools(const std::vector<bool>& v) { std::string o = "["; const char* sep = ""; for (bool b : v) { o += sep; o += b ? "true" : "false"; sep = ","; } return o + "]"; }

template<class C> struct Run {
    using S = std::basic_string<C>; using V = std::basic_string_view<C>; using OS = std::basic_ostringstream<C>; using IS = std::basic_istringstream<C>;
    vp::Trace& t; vp::Rng& r; std::locale loc;
    core::BasicCharMapper<C> mapper { loc };

    template<class T> static std::string lo() { if constexpr (std::is_same_v<T, bool>) return vp::big_of_int(0); else return vp::big_of<T>(core::int_min<T>()); }
    template<class T> static std::string hi() { if constexpr (std::is_same_v<T, bool>) return vp::big_of_int(1); else return vp::big_of<T>(core::int_max<T>()); }
    template<class T> vp::Ev ev(const char* n) { vp::Ev e(n); e.raw("lo", lo<T>()).raw("hi", hi<T>()); return e; }
    static constexpr char dig[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";

    // The text of a value at or around the limits of a type, or of something else
    template<class T> S number(int radix)
    {
        std::string s;
        if (r.chance(75)) {
            // By hand, from the bits of the value, possibly beyond the limits
            std::vector<bool> b = vp::TypeOf<T>::bits(vp::some<T>(r)); bool neg = r.chance(vp::TypeOf<T>::sign ? 50 : 15);
            if (vp::TypeOf<T>::sign && b.back()) neg = true;
            if (vp::TypeOf<T>::sign) b = vp::twos(b, true).b;
            if (r.chance(20)) { for (std::size_t i = 0; i < b.size(); ++i) { b[i] = !b[i]; if (b[i]) break; } } // one more
            if (r.chance(10)) b.push_back(true);
            for (;;) {
                // Divide by the radix
                int rem = 0; bool zero = true;
                for (std::size_t i = b.size(); i > 0; --i) { rem = 2 * rem + b[i - 1]; b[i - 1] = false; if (rem >= radix) {} int q = rem / radix; rem %= radix; b[i - 1] = q != 0; if (q) zero = false; }
                s.insert(s.begin(), dig[rem]);
                if (zero) break;
            }
            if (r.chance(15)) s.insert(0, std::size_t(r.range(1, 4)), '0');
            if (neg) s.insert(0, "-");
            else if (r.chance(10)) s.insert(0, "+");
        }
        else if (r.chance(50)) for (long k = r.below(5); k > 0; --k) s += dig[r.below(radix + (r.chance(20) ? 1 : 0))];
        else { static const char odd[] = "-+0123789afFgzZ_ .xX\t/:@[`{\0"; for (long k = r.below(5); k > 0; --k) s += odd[r.below(long(sizeof odd) - 1)]; }
        if (r.chance(12)) { static const char odd[] = "-+09aZ_ .x/:@[`{\0\n"; s.insert(std::size_t(r.below(long(s.size()) + 1)), 1, odd[r.below(long(sizeof odd) - 1)]); }
        if (r.chance(20)) for (char& c : s) if (c >= 'A' && c <= 'Z' && r.chance(70)) c = char(c + 32);
        S o = conv<C>(s);
        if (r.chance(4)) o.insert(std::size_t(r.below(long(o.size()) + 1)), 1, sizeof(C) > 1 ? C(0x100 * r.range(1, 9) + '0' + r.below(10)) : C(0xB2));
        return o;
    }
    template<class T> void result(vp::Ev& e, const S& s, bool ok, T var, T was) { t.put(e.raw("t", codes(s)).b("ok", ok).raw("v", vp::big_of<T>(var)).raw("was", vp::big_of<T>(was))); }

    template<class T, int radix> void fmt_in(T v)
    {
        core::BasicIntegerFormatter<C> f(mapper); bool lower = r.chance(30); if (lower || r.chance(20)) f.use_lowercase(lower);
        int min = r.chance(40) ? 1 : r.chance(30) ? 0 : r.chance(30) ? -1 : int(r.range(2, r.chance(20) ? 130 : 12));
        S a, b, c; bool same = true;
        if (r.chance(20)) { f.template format<10>(T(0), 3); f.format_a(v, 36, 2); }       // The formatter can be used again
        a = S(f.template format<radix>(v, min)); b = S(f.format_a(v, radix, min));
        same = a == b;
        if (min == 1) same = same && S(f.template format<radix>(v)) == a;
        if (radix == 2) same = same && S(f.format_bin(v, min)) == a;
        if (radix == 8) same = same && S(f.format_oct(v, min)) == a;
        if (radix == 10) same = same && S(f.format_dec(v, min)) == a;
        if (radix == 16) same = same && S(f.format_hex(v, min)) == a;
        if (!lower) {
            OS out; out.imbue(loc); const T& v2 = v; bool st = r.chance(50);
            if (radix == 10 && st) out << core::as_dec_int(v2, min); else if (radix == 2 && st) out << core::as_bin_int(v2, min);
            else if (radix == 8 && st) out << core::as_oct_int(v2, min); else if (radix == 16 && st) out << core::as_hex_int(v2, min);
            else if (st) out << core::as_int<radix>(v2, min); else out << core::as_int_a(v2, radix, min);
            same = same && out.str() == a;
            OS p; int w = int(a.size()) + int(r.range(-2, 3)); p.width(w < 0 ? 0 : w); p.fill(C('*')); p << core::as_int_a(v2, radix, min); S q = p.str();
            same = same && q == S(std::size_t(w > int(a.size()) ? w - int(a.size()) : 0), C('*')) + a;
            if constexpr (!vp::TypeOf<T>::sign) {
                OS o2, o3; o2 << core::as_flex_int(v2); o3 << core::as_flex_int_h(v2);
                same = same && o2.str() == S(f.format_dec(v)) && o3.str() == conv<C>("0x") + S(f.format_hex(v));
            }
        }
        t.put(ev<T>("fmt").raw("v", vp::big_of<T>(v)).i("radix", radix).i("min", min).b("lower", lower).raw("t", codes(a)).b("same", same));
    }
    template<class T> void fmt(T v)
    {
        switch (r.below(8)) {
            case 0: return fmt_in<T, 2>(v); case 1: return fmt_in<T, 3>(v); case 2: return fmt_in<T, 8>(v); case 3: return fmt_in<T, 11>(v);
            case 4: return fmt_in<T, 16>(v); case 5: return fmt_in<T, 36>(v); default: return fmt_in<T, 10>(v);
        }
    }
    template<class T, int radix> void parse_in(const S& s)
    {
        using B = core::IntegerParserBase; core::BasicIntegerParser<C> p(mapper);
        T was = vp::some<T>(r), v = was; bool ok = false; const char* mode = "auto"; V x = s;
        int way = int(r.below(4));
        switch (r.below(5)) {
            case 0: mode = "accept"; ok = p.template parse<radix, B::Sign::accept>(x, v); break;
            case 1: mode = "accept_minus"; ok = p.template parse<radix, B::Sign::accept_minus>(x, v); break;
            case 2: mode = "reject"; ok = p.template parse<radix, B::Sign::reject>(x, v); break;
            default:
                if (way == 0) { core::BasicValueParser<C> vp_(loc); if constexpr (radix == 10) ok = vp_.parse(x, core::as_dec_int(v)); else if constexpr (radix == 2) ok = vp_.parse(x, core::as_bin_int(v)); else if constexpr (radix == 8) ok = vp_.parse(x, core::as_oct_int(v)); else if constexpr (radix == 16) ok = vp_.parse(x, core::as_hex_int(v)); else ok = p.template parse<radix>(x, v); }
                else if (way == 1) { if constexpr (radix == 10) ok = p.parse_dec(x, v); else if constexpr (radix == 2) ok = p.parse_bin(x, v); else if constexpr (radix == 8) ok = p.parse_oct(x, v); else if constexpr (radix == 16) ok = p.parse_hex(x, v); else ok = p.template parse<radix, B::Sign::auto_>(x, v); }
                else ok = p.template parse<radix>(x, v);
        }
        auto e = ev<T>("parse"); e.i("radix", radix).s("mode", mode); result<T>(e, s, ok, v, was);
    }
    template<class T> void parse(const S* given = nullptr)
    {
        auto go = [&](auto rad) { constexpr int radix = decltype(rad)::value; parse_in<T, radix>(given ? *given : number<T>(radix)); };
        switch (r.below(7)) {
            case 0: return go(std::integral_constant<int, 2>()); case 1: return go(std::integral_constant<int, 8>()); case 2: return go(std::integral_constant<int, 16>());
            case 3: return go(std::integral_constant<int, 36>()); case 4: return go(std::integral_constant<int, 7>()); default: return go(std::integral_constant<int, 10>());
        }
    }
    template<class T> void flex(const S* given = nullptr)
    {
        if constexpr (!vp::TypeOf<T>::sign) {
            S s; if (given) s = *given; else { switch (r.below(4)) { case 0: s = conv<C>("0x") + number<T>(16); break; case 1: s = conv<C>("0") + number<T>(8); break; case 2: s = conv<C>("0X") + number<T>(16); break; default: s = number<T>(10); } if (r.chance(10)) s = s.substr(0, std::size_t(r.below(4))); }
            core::BasicValueParser<C> p(loc); T was = vp::some<T>(r), v = was; bool ok = r.chance(50) ? p.parse(V(s), core::as_flex_int(v)) : p.parse(V(s), core::as_flex_int_h(v));
            auto e = ev<T>("flex"); result<T>(e, s, ok, v, was);
        }
    }
    core::BasicValueParser<C> m_vp { loc };
    template<class T> void value(const S* given = nullptr)
    {
        S s = given ? *given : number<T>(10); T was = vp::some<T>(r), v = was;
        bool ok = m_vp.parse(V(s), v); auto e = ev<T>("value"); result<T>(e, s, ok, v, was);
        if (r.chance(20)) { S w = conv<C>("was"); m_vp.parse(V(s), w); t.put(vp::Ev("string").raw("t", codes(s)).raw("v", codes(w))); }
    }
    template<class T, int radix> void take_in(const S& s)
    {
        IS in(s); in.imbue(std::locale::classic()); T was = vp::some<T>(r), v = was;
        if constexpr (radix == 10) in >> core::as_dec_int(v); else if constexpr (radix == 2) in >> core::as_bin_int(v); else if constexpr (radix == 8) in >> core::as_oct_int(v); else in >> core::as_hex_int(v);
        bool ok = !in.fail(); in.clear(); OS rest; S more; for (C c; in.get(c);) more += c;
        auto e = ev<T>("take"); e.i("radix", radix).raw("rest", codes(more)); result<T>(e, s, ok, v, was);
    }
    template<class T> void take(const S* given = nullptr)
    {
        auto go = [&](auto rad) {
            constexpr int radix = decltype(rad)::value; S s = given ? *given : number<T>(radix);
            for (C& c : s) if (std::make_unsigned_t<C>(c) > 126) c = C('!');
            if (!given && r.chance(40)) s = conv<C>(r.chance(50) ? " " : "\n \t") + s;
            if (!given && r.chance(40)) s += conv<C>(r.chance(50) ? " 5" : ",x");
            take_in<T, radix>(s);
        };
        switch (r.below(4)) { case 0: return go(std::integral_constant<int, 2>()); case 1: return go(std::integral_constant<int, 8>()); case 2: return go(std::integral_constant<int, 16>()); default: return go(std::integral_constant<int, 10>()); }
    }
    template<class T> void one(long kind, const S* given = nullptr)
    {
        switch (kind) {
            case 0: fmt<T>(vp::some<T>(r)); break;
            case 1: case 2: parse<T>(given); break;
            case 3: if constexpr (!vp::IsMP<T>::value && sizeof(T) > 1 && !std::is_same_v<T, char16_t>) value<T>(given); else parse<T>(given); break;
            case 4: flex<T>(given); break;
            default: take<T>(given);
        }
    }
    void integer(const S* given = nullptr)
    {
        long k = given ? r.range(1, 5) : r.below(6);
        switch (r.below(13)) {
            case 0: one<signed char>(k, given); break; case 1: one<unsigned char>(k, given); break; case 2: one<short>(k, given); break; case 3: one<unsigned short>(k, given); break;
            case 4: one<int>(k, given); break; case 5: one<unsigned>(k, given); break; case 6: one<long>(k, given); break; case 7: one<unsigned long>(k, given); break;
            case 8: one<MPU>(k, given); break; case 9: one<MPS>(k, given); break; case 10: one<long long>(k, given); break; case 11: one<char>(k, given); break;
            default: if (k == 0) fmt<bool>(r.chance(50)); else if (k == 3) value<bool>(given); else parse<bool>(given);
        }
    }

    // ---- Lists
    core::AsListConfig config(bool simple)
    {
        core::AsListConfig c;
        c.separator = r.chance(60) ? ',' : r.chance(50) ? ' ' : r.chance(50) ? ';' : '|';
        c.bracketed = r.chance(50);
        switch (r.below(6)) { case 0: c.opening_bracket = '('; c.closing_bracket = ')'; break; case 1: c.opening_bracket = '{'; c.closing_bracket = '}'; break; case 2: c.opening_bracket = '<'; c.closing_bracket = '>'; break; case 3: if (!simple) c.opening_bracket = c.closing_bracket = '|'; break; default: break; }
        using P = core::AsListSpace; static const P ps[] = { P::auto_, P::none, P::allow, P::tight, P::loose }; c.space = ps[r.below(5)];
        return c;
    }
    static std::string json(const core::AsListConfig& c)
    {
        static const char* names[] = { "auto", "none", "allow", "tight", "loose" };
        return "{\"sep\":" + std::to_string(int(c.separator)) + ",\"bracketed\":" + (c.bracketed ? "true" : "false") + ",\"open\":" + std::to_string(int(c.opening_bracket)) + ",\"close\":" + std::to_string(int(c.closing_bracket)) + ",\"space\":\"" + names[int(c.space)] + "\"}";
    }
    template<class E> std::string elem_json(const E& e) { if constexpr (std::is_same_v<E, S>) return codes(e); else return vp::big_of<E>(e); }
    template<class X> std::string seq_json(const X& v) { std::string o = "["; const char* sep = ""; for (auto& e : v) { o += sep + elem_json<std::decay_t<decltype(e)>>(e); sep = ","; } return o + "]"; }
    template<class E> E some_elem(const core::AsListConfig& c)
    {
        if constexpr (std::is_same_v<E, S>) { static const char* words[] = { "", "a", "bc", "x y", "5", "[", "-" }; (void)c; return conv<C>(words[r.below(7)]); }
        else return r.chance(60) ? E(r.below(3)) : vp::some<E>(r);
    }
    template<class E> S elem_text(const E& e, bool hex)
    {
        OS o; o.imbue(std::locale::classic()); if constexpr (std::is_same_v<E, S>) o << e; else { if (hex) o << core::as_hex_int(e); else o << e; } (void)hex; return o.str();
    }
    template<class E> vp::Ev lev(const char* n, const char* elem, const core::AsListConfig& c)
    {
        vp::Ev e(n); e.s("elem", elem).raw("c", json(c));
        if constexpr (std::is_same_v<E, S>) e.i("lo", 0).i("hi", 0); else e.raw("lo", lo<E>()).raw("hi", hi<E>());
        return e;
    }
    // A list text: formatted by hand, with damage
    S list_text(std::vector<S>& texts, const core::AsListConfig& c)
    {
        S s; auto spaces = [&] { if (r.chance(15)) s += S(std::size_t(r.range(1, 2)), C(' ')); };
        if (c.bracketed) { s += C(c.opening_bracket); spaces(); }
        bool f = true; for (auto& x : texts) { if (!f) { s += C(c.separator); if (r.chance(30)) s += C(' '); } f = false; s += x; spaces(); }
        if (c.bracketed) s += C(c.closing_bracket);
        if (r.chance(20)) {
            static const char odd[] = " ,;|[](){}<>-+05aF\t"; std::size_t at = std::size_t(r.below(long(s.size()) + 1)); char ch = odd[r.below(long(sizeof odd) - 1)];
            switch (r.below(3)) { case 0: s.insert(at, 1, C(ch)); break; case 1: if (at < s.size()) s.erase(at, 1); break; default: if (at < s.size()) s[at] = C(ch); }
        }
        return s;
    }
    template<class E, class F> void list_of(const char* elem, bool hex, F func, const S* given = nullptr)
    {
        core::AsListConfig c = config(false); std::size_t n = std::size_t(r.chance(15) ? 0 : r.range(1, 5));
        std::vector<E> vs; for (std::size_t i = 0; i < n; ++i) vs.push_back(i > 0 && r.chance(40) ? vs.back() : r.chance(30) ? E() : some_elem<E>(c));
        std::vector<S> texts; for (auto& v : vs) texts.push_back(elem_text<E>(v, hex));
        std::size_t min = std::size_t(r.below(long(n) + 2)); bool copy = r.chance(50); std::size_t m = std::size_t(r.below(long(n) + 2));
        long kind = r.below(3); bool plain = !hex; bool by_func = hex || r.chance(30);
        OS o; o.imbue(std::locale::classic()); int width = r.chance(30) ? int(r.range(1, 25)) : 0; bool left = r.chance(50); char fill = r.chance(50) ? ' ' : '*';
        o.width(width); o.fill(C(fill)); o.setf(left ? std::ios_base::left : std::ios_base::right, std::ios_base::adjustfield);
        if (!given) {
            bool sh = r.chance(40);
            switch (kind) {
                case 0:
                    if (sh && !by_func) {
                        // The shorthands
                        static const char br[] = "()[]{}<>"; long b = r.below(5);
                        if (b == 4) { c = { }; c.separator = ' '; o << core::as_words(vs); }
                        else {
                            c.bracketed = true; c.opening_bracket = br[2 * b]; c.closing_bracket = br[2 * b + 1];
                            if (b == 0) o << core::as_rbr_list(vs, c.separator, c.space); else if (b == 1) o << core::as_sbr_list(vs, c.separator, c.space); else if (b == 2) o << core::as_cbr_list(vs, c.separator, c.space); else o << core::as_abr_list(vs, c.separator, c.space);
                        }
                    }
                    else if (by_func) o << core::as_list(vs, func, c); else if constexpr (true) { if (plain) o << core::as_list(vs, c); }
                    t.put(lev<E>("list_fmt", elem, c).raw("vs", seq_json(vs)).raw("texts", list_json(texts)).raw("t", codes(o.str())).i("width", width).b("left", left).i("fill", fill)); break;
                case 1:
                    if (by_func) o << core::as_list_a(core::Span<E>(vs), min, copy, func, c); else o << core::as_list_a(core::Span<E>(vs), min, copy, c);
                    t.put(lev<E>("lista_fmt", elem, c).raw("vs", seq_json(vs)).i("min", long(min)).b("copy", copy).raw("texts", list_json(texts)).raw("t", codes(o.str())).i("width", width).b("left", left).i("fill", fill)); break;
                default:
                    { std::size_t m2 = m; if (by_func) o << core::as_list_v(core::Span<E>(vs), func, m2, c); else o << core::as_list_v(core::Span<E>(vs), m2, c);
                    t.put(lev<E>("listv_fmt", elem, c).raw("vs", seq_json(vs)).i("n", long(m)).raw("texts", list_json(texts)).raw("t", codes(o.str())).i("width", width).b("left", left).i("fill", fill)); }
            }
        }
        // Parsing: what was formatted, or something else, into a list of the same size or another
        S s = given ? *given : width == 0 && r.chance(40) ? o.str() : list_text(texts, c);
        if (given) { c = config(true); c.separator = ','; c.opening_bracket = '['; c.closing_bracket = ']'; }
        if (r.chance(20) || given) n = std::size_t(r.below(5));
        std::vector<E> ws(n, some_elem<E>(c)), was = ws; bool ok; std::size_t m2 = m;
        switch (kind) {
            case 0: ok = by_func ? m_vp.parse(V(s), core::as_list(ws, func, c)) : m_vp.parse(V(s), core::as_list(ws, c));
                t.put(lev<E>("list_parse", elem, c).raw("t", codes(s)).i("n", long(n)).b("ok", ok).raw("vs", seq_json(ws))); break;
            case 1: ok = by_func ? m_vp.parse(V(s), core::as_list_a(core::Span<E>(ws), min, copy, func, c)) : m_vp.parse(V(s), core::as_list_a(core::Span<E>(ws), min, copy, c));
                t.put(lev<E>("lista_parse", elem, c).raw("t", codes(s)).i("n", long(n)).i("min", long(min)).b("copy", copy).b("ok", ok).raw("vs", seq_json(ws))); break;
            default: ok = by_func ? m_vp.parse(V(s), core::as_list_v(core::Span<E>(ws), func, m2, c)) : m_vp.parse(V(s), core::as_list_v(core::Span<E>(ws), m2, c));
                t.put(lev<E>("listv_parse", elem, c).raw("t", codes(s)).i("n", long(m2)).i("wasn", long(m)).b("ok", ok).raw("vs", seq_json(ws)).raw("was", seq_json(was)));
        }
    }
    std::string list_json(const std::vector<S>& v) { std::string o = "["; const char* sep = ""; for (auto& x : v) { o += sep + codes(x); sep = ","; } return o + "]"; }
    void list(const S* given = nullptr)
    {
        auto id = [](auto& x) -> auto& { return x; };
        switch (r.below(4)) {
            case 0: case 1: return list_of<short>("int", false, id, given);
            case 2: return list_of<unsigned short>("hex", true, [](auto& x) { return core::as_hex_int(x); }, given);
            default: return list_of<S>("str", false, id, given);
        }
    }

    // ---- Quoting
    void quote(const S& s)
    {
        auto& ct = std::use_facet<std::ctype<C>>(loc); std::vector<bool> pr, sp, xd;
        for (C c : s) { pr.push_back(ct.is(ct.print, c)); sp.push_back(ct.is(ct.space, c)); xd.push_back(ct.is(ct.xdigit, c)); }
        long max = r.chance(25) ? -1 : r.range(0, long(s.size()) * (r.chance(50) ? 1 : 4) + 8); bool smart = r.chance(50); bool dq = r.chance(60);
        OS o; o.imbue(loc); int width = r.chance(20) ? int(r.range(1, 25)) : 0; bool left = r.chance(50); char fill = r.chance(50) ? ' ' : '*';
        o.width(width); o.fill(C(fill)); o.setf(left ? std::ios_base::left : std::ios_base::right, std::ios_base::adjustfield);
        // In memory of its own
        std::vector<C> mem(s.begin(), s.end()); V v(mem.data(), mem.size()); std::size_t m = max < 0 ? std::size_t(-1) : std::size_t(max);
        bool cs = r.chance(20) && s.find(C(0)) == S::npos;
        if (cs) { const C* p = s.c_str(); if (smart) { if (dq) o << core::smart_quoted(p, m); else o << core::smart_quoted_s(p, m); } else { if (dq) o << core::quoted(p, m); else o << core::quoted_s(p, m); } }
        else if (smart) { if (dq) o << core::smart_quoted(v, m); else o << core::smart_quoted_s(v, m); }
        else { if (dq) o << core::quoted(v, m); else o << core::quoted_s(v, m); }
        t.put(vp::Ev("quote").raw("s", codes(s)).raw("print", bools(pr)).raw("space", bools(sp)).raw("xdigit", bools(xd)).i("max", max).b("smart", smart).i("q", dq ? '"' : '\'').raw("t", codes(o.str())).i("width", width).b("left", left).i("fill", fill));
    }
    S some_text()
    {
        S s; bool wide = sizeof(C) > 1; long kind = r.below(4);
        for (long k = r.below(r.chance(20) ? 90 : 12); k > 0; --k) {
            if (r.chance(kind == 0 ? 100 : 60)) { static const char plain[] = "abcxyz09AF7_."; s += C(plain[r.below(long(sizeof plain) - 1)]); }
            else switch (r.below(6)) {
                case 0: { static const char odd[] = "\a\b\t\n\v\f\r\"\\' "; s += C(odd[r.below(long(sizeof odd) - 1)]); break; }
                case 1: s += C(r.below(32)); break;
                case 2: s += C(static_cast<unsigned char>(r.range(127, 255))); break;
                case 3: s += C(kind == 1 ? ' ' : '"'); break;
                default: if (wide) { static const long w[] = { 0x100, 0x1FF, 0x200, 0x7FF, 0x2028, 0x3000, 0xFFFF, 0x10FFFF, 0x3B1, 0xE0001, 0x7FFFFFF }; s += C(w[r.below(11)]); } else s += C('\\');
            }
        }
        return s;
    }
    void step() { long k = r.below(10); if (k < 4) integer(); else if (k < 7) list(); else quote(some_text()); }
    void script(const vp::J& j)
    {
        S s; for (auto& c : j["s"].a) s += C(c.n);
        if (j["f"].s == "int") for (int k = 0; k < 2; ++k) integer(&s);
        else if (j["f"].s == "list") for (int k = 0; k < 2; ++k) list(&s);
        else {
            if (sizeof(C) == 1) for (auto& c : j["s"].a) if (c.n > 255) return;
            for (int k = 0; k < 2; ++k) quote(s);
        }
    }
};
int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Rng r(a.seed); vp::Trace t(a.trace);
    std::locale c = std::locale::classic(), u; try { u = std::locale("C.UTF-8"); } catch (std::exception&) { u = c; }
    Run<char> n1 { t, r, c }; Run<wchar_t> w1 { t, r, c }, w2 { t, r, u };
    t.put(vp::Ev("reset"));
    for (auto& s : a.scripts) { if (r.chance(50)) n1.script(s); else if (r.chance(50)) w1.script(s); else w2.script(s); }
    for (long k = 0; k < a.episodes; ++k) {
        t.put(vp::Ev("reset"));
        for (long j = 0; j < a.steps; ++j) { switch (r.below(3)) { case 0: n1.step(); break; case 1: w1.step(); break; default: w2.step(); } }
    }
}
