// Driver for the Unicode conversions (core/unicode.hpp, core/unicode_bridge.hpp).
#include "common.hpp"
#include <locale>
#include <archon/core/buffer.hpp>
#include <archon/core/span.hpp>
#include <archon/core/string_span.hpp>
#include <archon/core/unicode.hpp>
#include <archon/core/unicode_bridge.hpp>

using namespace archon;
using Units = std::vector<long>;

template<class C> C to_unit(long v) { return C(static_cast<std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>>(v)); }
template<class C> long from_unit(C c)
{
    if constexpr (sizeof(C) == 1) return static_cast<unsigned char>(c);
    else if constexpr (sizeof(C) == 2) return std::uint16_t(c);
    else { auto v = std::uint32_t(c); return v > 2147483647u ? 2147483647 : long(v); }
}
template<class C> Units log_units(const C* p, std::size_t n) { Units u; for (std::size_t i = 0; i < n; ++i) u.push_back(from_unit(p[i])); return u; }
template<class C> std::basic_string<C> make(const Units& u) { std::basic_string<C> s; for (long v : u) s += to_unit<C>(v); return s; }

// The functions of one conversion
#define CONV(NAME, OP, SRC, F) \
struct NAME { \
    static constexpr const char* op = OP; static constexpr const char* src = SRC; \
    template<class C, class D> static void incr(core::Span<const C> in, core::Span<D> out, std::size_t& i, std::size_t& o, bool& x, bool& e) \
    { core::F##_incr<C, D>(in, out, i, o, x, e); } \
    template<class C, class D> static void part(core::StringSpan<C> s, std::size_t& i, core::Buffer<D>& b, std::size_t& o) \
    { core::F##_a<C, D>(s, i, b, o); } \
    template<class C, class D> static void len(core::StringSpan<C> s, core::Buffer<D>& b, std::size_t& o) { core::F##_l<C, D>(s, b, o); } \
    template<class C, class D> static bool tr(core::StringSpan<C> s, core::Buffer<D>& b, std::size_t& o) { return core::try_##F<C, D>(s, b, o); } \
    template<class C, class D> static void thr(core::StringSpan<C> s, core::Buffer<D>& b, std::size_t& o) { core::F<C, D>(s, b, o); } \
};
CONV(E8, "e8", "ucs", encode_utf8)
CONV(D8, "d8", "8", decode_utf8)
CONV(E16, "e16", "ucs", encode_utf16)
CONV(D16, "d16", "16", decode_utf16)
CONV(X816, "8to16", "8", utf8_to_utf16)
CONV(X168, "16to8", "16", utf16_to_utf8)

template<class F, class C, class D> void steps(vp::Trace& tr, vp::Rng& rng, const Units& in)
{
    std::basic_string<C> s = make<C>(in);
    std::size_t i = 0, avail = 0;
    std::size_t size = std::size_t(rng.below(7)), o = size == 0 ? 0 : std::size_t(rng.below(long(size) + 1));
    if (rng.chance(30)) avail = s.size();
    if (rng.chance(20)) i = std::size_t(rng.below(long(avail) + 1));
    for (int k = 0; k < 40; ++k) {
        // Exact allocations, so that an access outside of them is noticed
        std::vector<C> in2(s.begin(), s.begin() + long(avail));
        std::vector<D> out(size, to_unit<D>(0x2A)), before = out;
        std::size_t i2 = i, o2 = o;
        bool ex = false, err = false;
        F::template incr<C, D>({ in2.data(), in2.size() }, { out.data(), out.size() }, i2, o2, ex, err);
        bool clean = o2 <= size && o2 >= o;
        std::vector<D> got;
        if (clean) {
            got.assign(out.begin() + long(o), out.begin() + long(o2));
            for (std::size_t j = 0; j < size; ++j) if ((j < o || j >= o2) && out[j] != before[j]) clean = false;
        }
        tr.put(vp::Ev("step").s("op", F::op).seq("in", log_units(in2.data(), in2.size())).i("i", long(i)).i("o", long(o)).i("size", long(size))
               .i("i2", long(i2)).i("o2", long(o2)).seq("out", log_units(got.data(), got.size()))
               .b("ex", ex).b("err", !ex && err).b("clean", clean));
        bool moved = i2 != i;
        i = i2; o = o2;
        if (i > avail || (!ex && err)) break;
        if (ex) { if (avail == s.size()) break; avail += std::size_t(1 + rng.below(long(s.size() - avail))); if (rng.chance(40)) continue; }
        if (!moved || rng.chance(70)) { size = std::size_t(rng.below(9)); o = std::size_t(rng.below(long(size) + 1)); }
    }
}

template<class D> core::Buffer<D> pre_buffer(const Units& pre, std::size_t room)
{
    core::Buffer<D> b(pre.size() + room);
    for (std::size_t i = 0; i < pre.size(); ++i) b[i] = to_unit<D>(pre[i]);
    return b;
}

template<class F, class C, class D> void whole(vp::Trace& tr, vp::Rng& rng, const Units& in)
{
    std::basic_string<C> s0 = make<C>(in);
    std::vector<C> s(s0.begin(), s0.end());
    core::StringSpan<C> span(s.data(), s.size());
    Units pre; for (long n = rng.chance(40) ? 0 : rng.below(4); n > 0; --n) pre.push_back(33 + rng.below(90));
    std::size_t room = std::size_t(rng.chance(50) ? 0 : rng.below(12));
    Units outs[3]; bool ok = false, threw = false;
    {
        core::Buffer<D> b = pre_buffer<D>(pre, room); std::size_t o = pre.size();
        ok = F::template tr<C, D>(span, b, o);
        outs[0] = log_units(b.data(), o);
    }
    {
        core::Buffer<D> b = pre_buffer<D>(pre, room); std::size_t o = pre.size();
        try { F::template thr<C, D>(span, b, o); } catch (std::runtime_error&) { threw = true; }
        outs[1] = log_units(b.data(), o);
    }
    {
        core::Buffer<D> b = pre_buffer<D>(pre, room); std::size_t o = pre.size();
        F::template len<C, D>(span, b, o);
        outs[2] = log_units(b.data(), o);
    }
    tr.put(vp::Ev("whole").s("op", F::op).seq("in", in).seq("pre", pre).b("ok", ok).b("threw", threw)
           .seq("out", outs[0]).seq("out2", outs[1]).seq("len", outs[2]));
    {
        std::size_t i = std::size_t(rng.chance(60) ? 0 : rng.below(long(s.size()) + 1)), i2 = i;
        core::Buffer<D> b = pre_buffer<D>(pre, room); std::size_t o = pre.size();
        F::template part<C, D>(span, i2, b, o);
        tr.put(vp::Ev("part").s("op", F::op).seq("in", in).i("i", long(i)).i("i2", long(i2)).seq("pre", pre).seq("out", log_units(b.data(), o)));
    }
}

template<class F, class C, class D> void conv(vp::Trace& tr, vp::Rng& rng, const Units& in)
{
    // A unit of type char16_t with this value is the "end of file" of std::char_traits<char16_t>, which alters it
    if (std::is_same_v<C, char16_t>) for (long v : in) if (v == 65535) return;
    steps<F, C, D>(tr, rng, in);
    whole<F, C, D>(tr, rng, in);
}

template<class C, int W> void resync(vp::Trace& tr, vp::Rng& rng, const Units& in)
{
    if (std::is_same_v<C, char16_t>) for (long v : in) if (v == 65535) return;
    std::basic_string<C> s0 = make<C>(in);
    std::vector<C> s(s0.begin(), s0.end());
    std::size_t i = std::size_t(rng.below(long(s.size()) + 1)), i2 = i;
    if constexpr (W == 8) core::resync_utf8<C>({ s.data(), s.size() }, i2); else core::resync_utf16<C>({ s.data(), s.size() }, i2);
    tr.put(vp::Ev("resync").s("form", W == 8 ? "8" : "16").seq("in", in).i("i", long(i)).i("i2", long(i2)));
}

void native(vp::Trace& tr, vp::Rng& rng, const Units& in)
{
    static const std::locale classic = std::locale::classic();
    static const std::locale utf8a("C.utf8"), utf8b("C.UTF-8");   // only the latter is recognized by name
    const std::locale& utf8 = rng.chance(70) ? utf8a : utf8b;
    bool is8 = rng.chance(50);
    Units pre; for (long n = rng.chance(40) ? 0 : rng.below(4); n > 0; --n) pre.push_back(33 + rng.below(90));
    std::string s = make<char>(in);
    std::vector<char> exact(s.begin(), s.end());
    core::StringSpan<char> span(exact.data(), exact.size());
    {
        core::utf8_to_native_mb_transcoder x(is8 ? utf8 : classic);
        core::Buffer<char> b = pre_buffer<char>(pre, std::size_t(rng.below(5))); std::size_t o = pre.size();
        x.transcode_l(span, b, o);
        tr.put(vp::Ev("tonative").b("utf8", is8).seq("in", in).seq("pre", pre).seq("out", log_units(b.data(), o)));
    }
    Units in2;
    for (long v : in) if (is8 || (v >= 32 && v < 127 && v != '$' && v != '@' && v != '`')) in2.push_back(v);
    while (!is8 && !in2.empty() && in2.size() < 70 && rng.chance(90)) in2.push_back(in2[std::size_t(rng.below(long(in2.size())))]);
    s = make<char>(in2);
    {
        core::native_mb_to_utf8_transcoder x(is8 ? utf8 : classic);
        core::Buffer<char> b = pre_buffer<char>(pre, std::size_t(rng.below(5))); std::size_t o = pre.size();
        x.transcode_l(core::StringSpan<char>(s.data(), s.size()), b, o);
        tr.put(vp::Ev("fromnative").b("utf8", is8).seq("in", in2).seq("pre", pre).seq("out", log_units(b.data(), o)));
    }
}

void one(vp::Trace& tr, vp::Rng& rng, const std::string& form, const Units& in)
{
    if (form == "ucs") {
        if (rng.chance(50)) conv<E8, char32_t, char>(tr, rng, in); else conv<E8, wchar_t, char8_t>(tr, rng, in);
        if (rng.chance(50)) conv<E16, char32_t, char16_t>(tr, rng, in); else conv<E16, wchar_t, wchar_t>(tr, rng, in);
    }
    else if (form == "8") {
        switch (rng.below(3)) {
            case 0: conv<D8, char, char32_t>(tr, rng, in); break;
            case 1: conv<D8, char8_t, wchar_t>(tr, rng, in); break;
            default: conv<D8, char16_t, char32_t>(tr, rng, in);
        }
        switch (rng.below(3)) {
            case 0: conv<X816, char, char16_t>(tr, rng, in); break;
            case 1: conv<X816, char8_t, wchar_t>(tr, rng, in); break;
            default: conv<X816, wchar_t, char16_t>(tr, rng, in);
        }
        if (rng.chance(50)) resync<char, 8>(tr, rng, in); else resync<wchar_t, 8>(tr, rng, in);
        if (rng.chance(50)) native(tr, rng, in);
    }
    else {
        if (rng.chance(50)) conv<D16, char16_t, char32_t>(tr, rng, in); else conv<D16, wchar_t, wchar_t>(tr, rng, in);
        if (rng.chance(50)) conv<X168, char16_t, char>(tr, rng, in); else conv<X168, wchar_t, char8_t>(tr, rng, in);
        if (rng.chance(50)) resync<char16_t, 16>(tr, rng, in); else resync<wchar_t, 16>(tr, rng, in);
    }
}

long code_point(vp::Rng& rng)
{
    static const std::vector<long> edges = { 0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xCFFF, 0xD000, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF,
        0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x1FFFE, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FC00, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0xFFFFFFFF };
    switch (rng.below(6)) {
        case 0: return rng.pick(edges);
        case 1: return std::max(0L, rng.pick(edges) + rng.range(-2, 2)) & 0xFFFFFFFF;
        case 2: return rng.below(0x80);
        case 3: return rng.below(0x800);
        case 4: return rng.below(0x10000);
        default: return rng.below(0x110000);
    }
}
void put8(Units& u, long c, int n)      // in n bytes, be it right or not
{
    static const long lead[] = { 0, 0, 0xC0, 0xE0, 0xF0 };
    if (n == 1) { u.push_back(c & 0xFF); return; }
    u.push_back((lead[n] | (c >> (6 * (n - 1)))) & 0xFF);
    for (int k = n - 2; k >= 0; --k) u.push_back(0x80 | ((c >> (6 * k)) & 0x3F));
}
Units random_input(vp::Rng& rng, const std::string& form)
{
    Units u; long n = rng.chance(15) ? rng.below(90) : rng.below(8); bool good = rng.chance(40);
    for (long k = 0; k < n; ++k) {
        long c = code_point(rng);
        if (good && (c >= 0x110000 || (c >= 0xD800 && c < 0xE000) || c == 0xFFFE || c == 0xFFFF)) c = 65 + rng.below(20);
        if (form == "ucs") u.push_back(c);
        else if (form == "8") {
            int w = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
            if (!good && rng.chance(10)) w = int(rng.range(1, 4));
            put8(u, c & 0x1FFFFF, w);
        }
        else if (c >= 0x10000) { c = (c - 0x10000) & 0xFFFFF; u.push_back(0xD800 + (c >> 10)); u.push_back(0xDC00 + (c & 0x3FF)); }
        else u.push_back(c);
    }
    if (!good) for (long k = rng.below(3); k > 0 && !u.empty(); --k) {
        std::size_t at = std::size_t(rng.below(long(u.size()))); long top = form == "8" ? 256 : 65536;
        switch (rng.below(4)) {
            case 0: u.resize(at); break;
            case 1: u.erase(u.begin() + long(at)); break;
            case 2: if (form != "ucs") u[at] = rng.below(top); break;
            default: if (form != "ucs") u.insert(u.begin() + long(at), form == "8" ? rng.range(128, 255) : rng.range(0xD7FE, 0xE001));
        }
    }
    return u;
}

int main(int argc, char** argv)
{
    vp::Args a(argc, argv);
    vp::Trace tr(a.trace);
    vp::Rng rng(a.seed);
    tr.put(vp::Ev("reset"));
    for (const vp::J& s : a.scripts) {
        Units u; for (auto& x : s["in"].a) u.push_back(x.n);
        one(tr, rng, s["form"].s, u);
    }
    const char* forms[] = { "ucs", "8", "16" };
    for (long k = 0; k < a.episodes; ++k) {
        std::string form = forms[rng.below(3)];
        one(tr, rng, form, random_input(rng, form));
    }
}
