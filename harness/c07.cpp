// Driver for the incremental codecs (core/char_codec.hpp, core/newline_codec.hpp, core/text_codec.hpp, core/string_codec.hpp).
#include "common.hpp"
#include <cwchar>
#include <locale>
#include <memory>
#include <stdexcept>
#include <archon/core/buffer.hpp>
#include <archon/core/span.hpp>
#include <archon/core/string_span.hpp>
#include <archon/core/char_codec.hpp>
#include <archon/core/newline_codec.hpp>
#include <archon/core/text_codec.hpp>
#include <archon/core/string_codec.hpp>

using namespace archon;
using Units = std::vector<long>;

// An encoding that has a state: ESC 0 and ESC 1 select the page that other bytes refer to
class ShiftFacet : public std::codecvt<wchar_t, char, std::mbstate_t> {
    static bool plain(unsigned char b) { return b == 9 || b == 10 || b == 13 || (b >= 32 && b < 127); }
protected:
    int do_encoding() const noexcept override { return -1; }
    bool do_always_noconv() const noexcept override { return false; }
    int do_max_length() const noexcept override { return 3; }
    result do_in(std::mbstate_t& st, const char* from, const char* end, const char*& next, wchar_t* to, wchar_t* to_end, wchar_t*& to_next) const override
    {
        next = from; to_next = to;
        for (;;) {
            if (next == end) return ok;
            unsigned char b = static_cast<unsigned char>(*next);
            if (b == 27) {
                if (end - next < 2) return ok;
                if (next[1] != '0' && next[1] != '1') return error;
                st.__count = next[1] - '0'; next += 2;
                continue;
            }
            if (!plain(b)) return error;
            if (to_next == to_end) return partial;
            *to_next++ = wchar_t(st.__count == 1 && b >= 32 ? 1024 + b : b);
            ++next;
        }
    }
    result do_out(std::mbstate_t& st, const wchar_t* from, const wchar_t* end, const wchar_t*& next, char* to, char* to_end, char*& to_next) const override
    {
        next = from; to_next = to;
        for (;;) {
            if (next == end) return ok;
            long c = long(*next), page = c >= 1024 ? 1 : 0, b = page ? c - 1024 : c;
            if (b < 0 || b > 126 || !plain(static_cast<unsigned char>(b)) || (page && b < 32)) return error;
            if (b >= 32 && page != st.__count) {
                if (to_end - to_next < 2) return partial;
                *to_next++ = 27; *to_next++ = char('0' + page); st.__count = int(page);
            }
            if (to_next == to_end) return partial;
            *to_next++ = char(b); ++next;
        }
    }
    result do_unshift(std::mbstate_t& st, char* to, char* to_end, char*& to_next) const override
    {
        to_next = to;
        if (st.__count == 0) return noconv;
        if (to_end - to < 2) return partial;
        *to_next++ = 27; *to_next++ = '0'; st.__count = 0;
        return ok;
    }
    int do_length(std::mbstate_t& st, const char* from, const char* end, std::size_t max) const override
    {
        const char* p = from;
        for (;;) {
            if (p == end) break;
            unsigned char b = static_cast<unsigned char>(*p);
            if (b == 27) {
                if (end - p < 2 || (p[1] != '0' && p[1] != '1')) break;
                st.__count = p[1] - '0'; p += 2;
                continue;
            }
            if (!plain(b) || max == 0) break;
            --max; ++p;
        }
        return int(p - from);
    }
};

std::locale locale_of(const std::string& form)
{
    if (form == "utf8") return std::locale("C.utf8");
    if (form == "shift") return std::locale(std::locale::classic(), new ShiftFacet);
    return std::locale::classic();
}
long state_of(const std::string& form, const std::mbstate_t& st) { return form == "shift" ? long(st.__count) : std::mbsinit(&st) ? 0 : 1; }
template<class C> long from_unit(C c) { if constexpr (sizeof(C) == 1) return static_cast<unsigned char>(c); else return long(c); }
template<class C> Units log_units(const C* p, std::size_t n) { Units u; for (std::size_t i = 0; i < n; ++i) u.push_back(from_unit(p[i])); return u; }
template<class C> std::vector<C> units(const Units& u) { std::vector<C> s; s.reserve(u.size()); for (long v : u) s.push_back(C(v)); return s; }
Units sub(const Units& u, std::size_t a, std::size_t b) { return Units(u.begin() + long(a), u.begin() + long(b)); }

// One call of decode() or encode(), with junk before the input and the output
struct Call { std::size_t n = 0; Units out; std::string why; bool clean = true; };
template<bool dec, class In, class Out, class Codec>
Call call(vp::Rng& rng, const Codec& codec, std::mbstate_t& st, const Units& in, bool eod, std::size_t room)
{
    std::size_t lead = std::size_t(rng.below(3)), skip = std::size_t(rng.below(3));
    Units all(lead, 120); all.insert(all.end(), in.begin(), in.end());
    std::vector<In> data = units<In>(all), data_2 = data;
    std::vector<Out> buffer(skip + room, Out(0x2A));
    std::size_t i = lead, o = skip; bool mark = rng.chance(50), error = mark, ret;
    core::Span<const In> s(data.data(), data.size()); core::Span<Out> b(buffer.data(), buffer.size());
    if constexpr (dec) ret = codec.decode(st, s, i, eod, b, o, error);
    else { static_cast<void>(eod); ret = codec.encode(st, s, i, b, o, error); }
    Call c;
    c.clean = i >= lead && i <= data.size() && o >= skip && o <= buffer.size() && data == data_2 && (!ret || error == mark);
    for (std::size_t k = 0; k < skip && k < buffer.size(); ++k) if (buffer[k] != Out(0x2A)) c.clean = false;
    if (c.clean) { c.n = i - lead; c.out = log_units(buffer.data() + skip, o - skip); }
    c.why = ret ? "done" : error ? "error" : "full";
    return c;
}

template<class C, class Codec>
void decode(vp::Trace& tr, vp::Rng& rng, const Codec& codec, const std::string& form, const std::string& mode, const Units& in)
{
    std::mbstate_t st {};
    std::size_t at = 0, avail = 0; bool eod = false; Units total; std::string why;
    if (rng.chance(40)) avail = rng.chance(50) ? in.size() : std::size_t(rng.below(long(in.size()) + 1));
    if (avail == in.size()) eod = rng.chance(50);
    long small = rng.chance(50) ? 3 : 9;
    for (int k = 0; k < 200; ++k) {
        std::size_t room = std::size_t(rng.below(small));
        Units part = sub(in, at, avail);
        std::mbstate_t before = st;
        long s1 = state_of(form, st);
        Call c = call<true, char, C>(rng, codec, st, part, eod, room);
        tr.put(vp::Ev("dec").s("form", form).s("mode", mode).seq("in", part).i("st", s1).b("eod", eod).i("room", long(room))
               .i("n", long(c.n)).seq("out", c.out).s("why", c.why).i("st2", state_of(form, st)).b("clean", c.clean));
        if (!c.clean) return;
        if (mode == "strict" && !c.out.empty() && rng.chance(40)) {
            std::vector<char> p = units<char>(part);
            std::size_t i = 0, size = std::size_t(rng.below(long(c.out.size()) + 1));
            codec.simul_decode(before, core::Span<const char>(p.data(), p.size()), i, size);
            tr.put(vp::Ev("simul").s("form", form).seq("in", part).i("st", s1).i("size", long(size)).i("n", long(i)).i("st2", state_of(form, before)));
        }
        at += c.n; total.insert(total.end(), c.out.begin(), c.out.end()); why = c.why;
        if (why == "error") break;
        if (why == "done") {
            if (eod) break;
            if (avail == in.size()) eod = true;
            else { avail += std::size_t(1 + rng.below(std::min(4L, long(in.size() - avail)))); if (avail == in.size()) eod = rng.chance(50); }
        }
    }
    tr.put(vp::Ev("decall").s("form", form).s("mode", mode).seq("in", in).i("n", long(at)).seq("out", total).s("why", why));
}

template<class C, class Codec>
void encode(vp::Trace& tr, vp::Rng& rng, const Codec& codec, const std::string& form, const std::string& mode, const Units& in)
{
    std::mbstate_t st {};
    std::size_t at = 0, avail = 0; Units total; std::string why;
    if (rng.chance(40)) avail = in.size();
    long small = rng.chance(50) ? 5 : 12;
    for (int k = 0; k < 300; ++k) {
        std::size_t room = std::size_t(rng.below(small));
        Units part = sub(in, at, avail);
        long s1 = state_of(form, st);
        Call c = call<false, C, char>(rng, codec, st, part, false, room);
        tr.put(vp::Ev("enc").s("form", form).s("mode", mode).seq("in", part).i("st", s1).i("room", long(room))
               .i("n", long(c.n)).seq("out", c.out).s("why", c.why).i("st2", state_of(form, st)).b("clean", c.clean));
        if (!c.clean) return;
        at += c.n; total.insert(total.end(), c.out.begin(), c.out.end()); why = c.why;
        if (why == "error") break;
        if (why == "done") {
            if (avail == in.size()) break;
            avail += std::size_t(1 + rng.below(std::min(4L, long(in.size() - avail))));
        }
    }
    if (why == "done") for (int k = 0; k < 50; ++k) {
        std::size_t room = std::size_t(rng.below(4)), o = 0; long s1 = state_of(form, st);
        std::vector<char> b(room, '*');
        bool ret = codec.unshift(st, core::Span<char>(b.data(), b.size()), o);
        if (o > room) std::abort();
        Units out = log_units(b.data(), o);
        tr.put(vp::Ev("unshift").i("st", s1).i("room", long(room)).seq("out", out).i("st2", state_of(form, st)).b("ret", ret));
        total.insert(total.end(), out.begin(), out.end());
        if (ret) break;
    }
    tr.put(vp::Ev("encall").s("form", form).s("mode", mode).seq("in", in).i("n", long(at)).seq("out", total).s("why", why));
}

// Whole texts, with a number of ordinary characters before what is of interest, so that it may be at the edge of internal buffers
template<class C, bool dec, class Codec>
void text(vp::Trace& tr, vp::Rng& rng, const Codec& codec, const char* os, const std::string& form, const std::string& mode, const Units& in,
          const std::function<std::basic_string<C>(std::string_view)>& str_dec, const std::function<std::string(std::basic_string_view<C>)>& str_enc)
{
    using In = std::conditional_t<dec, char, C>; using Out = std::conditional_t<dec, C, char>;
    std::size_t pad = std::size_t(rng.chance(60) ? rng.below(4) : rng.chance(70) ? rng.range(500, 516) : rng.range(1010, 1030));
    Units all(pad, 97); all.insert(all.end(), in.begin(), in.end());
    std::vector<In> data = units<In>(all);
    core::StringSpan<In> s(data.data(), data.size());
    std::size_t pre = std::size_t(rng.below(3)), room = std::size_t(rng.chance(50) ? 0 : rng.below(600));
    auto result = [&](const Out* p, std::size_t n, bool& padded) {
        padded = n >= pad; for (std::size_t k = 0; padded && k < pad; ++k) padded = from_unit(p[k]) == 97;
        return padded ? log_units(p + pad, n - pad) : Units();
    };
    core::Buffer<Out> b(pre + room); for (std::size_t k = 0; k < pre; ++k) b[k] = Out(42);
    std::size_t o = pre; bool ok;
    if constexpr (dec) ok = codec.try_decode(s, b, o); else ok = codec.try_encode(s, b, o);
    bool padded = true; Units out;
    for (std::size_t k = 0; k < pre; ++k) if (b[k] != Out(42)) padded = false;
    if (o >= pre) { bool p; out = result(b.data() + pre, o - pre, p); padded = padded && p; }
    // The other ways of saying the same
    bool threw = false, same = true; int how = int(rng.below(4));
    try {
        bool p = true; Units u;
        if (how == 0) {
            core::Buffer<Out> b2(std::size_t(rng.below(8)));
            if constexpr (dec) { auto v = codec.decode(s, b2); u = result(v.data(), v.size(), p); }
            else { auto v = codec.encode(s, b2); u = result(v.data(), v.size(), p); }
        }
        else if (how == 1) {
            Out seed[7];
            if constexpr (dec) { typename Codec::ShortCircuitDecodeBuffer b2(seed); auto v = codec.decode_sc(s, b2); u = result(v.data(), v.size(), p); }
            else { typename Codec::ShortCircuitEncodeBuffer b2(seed); auto v = codec.encode_sc(s, b2); u = result(v.data(), v.size(), p); }
        }
        else if (how == 2) {
            core::Buffer<Out> b2(3); std::size_t o2 = 3; b2[0] = b2[1] = b2[2] = Out(42);
            if constexpr (dec) codec.decode_a(s, b2, o2); else codec.encode_a(s, b2, o2);
            u = result(b2.data() + 3, o2 - 3, p); same = b2[0] == Out(42) && b2[1] == Out(42) && b2[2] == Out(42);
        }
        else {
            if constexpr (dec) { auto v = str_dec(std::string_view(data.data(), data.size())); u = result(v.data(), v.size(), p); }
            else { auto v = str_enc(std::basic_string_view<C>(data.data(), data.size())); u = result(v.data(), v.size(), p); }
        }
        same = same && p && u == out;
    }
    catch (std::runtime_error&) { threw = true; }
    tr.put(vp::Ev(dec ? "textdec" : "textenc").s("os", os).s("form", form).s("mode", mode).seq("in", in).b("ok", ok)
           .b("padded", padded).seq("out", out).b("threw", threw).b("same", same));
}

void newlines(vp::Trace& tr, vp::Rng& rng, const Units& in, bool dec)
{
    std::vector<char> data = units<char>(in);
    std::size_t at = 0, avail = rng.chance(50) ? data.size() : 0;
    for (int k = 0; k < 60; ++k) {
        std::size_t room = std::size_t(rng.below(7)), lead = std::size_t(rng.below(3)), skip = std::size_t(rng.below(3));
        bool eod = avail == data.size() && rng.chance(60);
        Units part = sub(in, at, avail), all(lead, 13); all.insert(all.end(), part.begin(), part.end());
        std::vector<char> src = units<char>(all), dst(skip + room, '*');
        std::size_t i = lead, o = skip, offset = std::size_t(rng.below(50)), before = std::size_t(rng.below(100)), clear = before;
        if (dec) core::newline_codec::decode(core::Span<const char>(src.data(), src.size()), i, eod, core::Span<char>(dst.data(), dst.size()), o, offset, clear);
        else core::newline_codec::encode(core::Span<const char>(src.data(), src.size()), i, core::Span<char>(dst.data(), dst.size()), o);
        if (i < lead || i > src.size() || o < skip || o > dst.size()) std::abort();
        Units out = log_units(dst.data() + skip, o - skip);
        if (dec) tr.put(vp::Ev("nldec").seq("in", part).i("room", long(room)).b("eod", eod).i("n", long(i - lead)).seq("out", out)
                        .i("offset", long(offset + skip)).i("before", long(before)).i("clear", long(clear)));
        else tr.put(vp::Ev("nlenc").seq("in", part).i("room", long(room)).i("n", long(i - lead)).seq("out", out));
        if (dec && rng.chance(40)) {
            std::size_t j = lead, size = std::size_t(rng.below(8));
            bool ok = core::newline_codec::simul_decode(core::Span<const char>(src.data(), src.size()), j, size);
            tr.put(vp::Ev("nlsimul").seq("in", part).i("size", long(size)).b("ok", ok).i("n", long(j) - long(lead)));
        }
        at += i - lead;
        if (at == data.size()) break;
        if (avail < data.size() && rng.chance(60)) avail += std::size_t(1 + rng.below(long(data.size() - avail)));
    }
}

core::CharCodecConfig<wchar_t, std::char_traits<wchar_t>> config(const std::string& mode)
{
    core::CharCodecConfig<wchar_t, std::char_traits<wchar_t>> c; c.lenient = mode != "strict"; c.use_fallback_replacement_char = mode == "fallback"; return c;
}

// The facet of the C++ library takes an incomplete UTF-8 sequence followed by a null character for valid input
Units without_cut_by_null(Units in)
{
    for (std::size_t i = 0; i < in.size();) {
        long b = in[i]; std::size_t n = b < 0xC2 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : 1, k = 1;
        while (k < n && i + k < in.size() && in[i + k] >= 128 && in[i + k] < 192) ++k;
        if (k < n && i + k < in.size() && in[i + k] == 0) in[i + k] = 65;
        i += k;
    }
    return in;
}

template<bool dec> void wide(vp::Trace& tr, vp::Rng& rng, const std::string& form, const Units& in_0)
{
    const Units in = dec && form == "utf8" ? without_cut_by_null(in_0) : in_0;
    static const std::vector<std::string> modes = { "strict", "lenient", "fallback" };
    std::locale loc = locale_of(form);
    std::string mode = rng.pick(modes);
    auto run = [&](const auto& codec, const std::string& m) { if (dec) decode<wchar_t>(tr, rng, codec, form, m, in); else encode<wchar_t>(tr, rng, codec, form, m, in); };
    switch (rng.below(3)) {
        case 0: run(core::WideSimpleCharCodec(loc), "strict"); break;
        case 1: run(core::WideCharCodec(loc, config(mode)), mode); break;
        default: { core::WideSimpleCharCodec c(std::locale::classic()); c.imbue(loc); run(c, "strict"); }
    }
    auto mk = config(mode);
    auto posix = [&](std::string_view s) { return core::decode_string<wchar_t>(s, loc, mk); };
    auto posix2 = [&](std::wstring_view s) { return core::encode_string<wchar_t>(s, loc, mk); };
    core::Span<wchar_t> no_w; core::Span<char> no_c;
    auto win = [&](std::string_view s) { core::WideWindowsTextDecoder d(loc, no_w, mk); return std::wstring(d.decode_sc(s)); };
    auto win2 = [&](std::wstring_view s) { core::WideWindowsTextEncoder e(loc, no_c, mk); return std::string(e.encode_sc(s)); };
    if (rng.chance(50)) text<wchar_t, dec>(tr, rng, core::WidePosixTextCodec(loc, mk), "posix", form, mode, in, posix, posix2);
    else text<wchar_t, dec>(tr, rng, core::WideWindowsTextCodec(loc, mk), "windows", form, mode, in, win, win2);
}

template<bool dec> void narrow(vp::Trace& tr, vp::Rng& rng, const Units& in)
{
    std::locale loc = locale_of(rng.chance(50) ? "utf8" : "ascii");
    if (rng.chance(50)) { core::SimpleCharCodec c(loc); if (dec) decode<char>(tr, rng, c, "char", "strict", in); else encode<char>(tr, rng, c, "char", "strict", in); }
    else { core::CharCodecConfig<char, std::char_traits<char>> k; k.lenient = true; core::CharCodec c(loc, k);
           if (dec) decode<char>(tr, rng, c, "char", "lenient", in); else encode<char>(tr, rng, c, "char", "lenient", in); }
    auto posix = [&](std::string_view s) { return core::decode_string<char>(s, loc); };
    auto posix2 = [&](std::string_view s) { return core::encode_string<char>(s, loc); };
    auto win = [&](std::string_view s) { core::WindowsTextDecoder d(loc); return std::string(d.decode_sc(s)); };
    auto win2 = [&](std::string_view s) { core::WindowsTextEncoder e(loc); return std::string(e.encode_sc(s)); };
    if (rng.chance(50)) text<char, dec>(tr, rng, core::PosixTextCodec(loc), "posix", "char", "strict", in, posix, posix2);
    else text<char, dec>(tr, rng, core::WindowsTextCodec(loc), "windows", "char", "strict", in, win, win2);
}

void one(vp::Trace& tr, vp::Rng& rng, const std::string& form, bool dec, const Units& in)
{
    Units bytes = in; for (long& v : bytes) v &= 0xFF;
    if (form == "char") { if (dec) narrow<true>(tr, rng, bytes); else narrow<false>(tr, rng, bytes); }
    else if (dec) wide<true>(tr, rng, form, in); else wide<false>(tr, rng, form, in);
    if (rng.chance(30)) newlines(tr, rng, bytes, rng.chance(60));
}

Units random_input(vp::Rng& rng, const std::string& form, bool dec)
{
    static const std::vector<Units> utf8 = { {65}, {66}, {10}, {13}, {13, 10}, {0}, {194, 128}, {223, 191}, {224, 160, 128}, {239, 191, 191}, {240, 144, 128, 128},
        {244, 143, 191, 191}, {226, 130}, {240, 159, 152}, {195}, {226}, {255}, {254}, {128}, {192}, {193}, {224, 128}, {237, 160, 128}, {237, 159, 191}, {240, 128, 128},
        {128, 128, 128, 128, 128, 128, 128}, {240, 130, 130, 172} };
    static const std::vector<Units> shift = { {65}, {66}, {126}, {10}, {13}, {13, 10}, {27, 48}, {27, 49}, {27, 49}, {27}, {27, 65}, {127}, {200, 201, 202}, {200, 201, 202, 203, 204, 205, 206, 65} };
    static const std::vector<Units> ascii = { {65}, {66}, {10}, {13}, {13, 10}, {0}, {127}, {128}, {195, 169}, {200, 201, 202, 203, 204, 205, 206, 65} };
    static const std::vector<Units> chars = { {65}, {66}, {10}, {13}, {13, 10}, {0}, {127}, {128}, {2047}, {2048}, {55295}, {55296}, {57343}, {57344}, {65533}, {65535}, {65536},
        {128512}, {1114111}, {1089}, {1090}, {1150}, {1151}, {1055}, {1056}, {63} };
    const std::vector<Units>& from = !dec ? chars : form == "shift" ? shift : form == "utf8" ? utf8 : ascii;
    Units u; bool good = rng.chance(40);
    for (long n = rng.chance(20) ? rng.below(14) : rng.below(6); n > 0; --n) {
        const Units& f = good && rng.chance(80) ? from[std::size_t(rng.below(8))] : rng.pick(from);
        u.insert(u.end(), f.begin(), f.end());
    }
    return u;
}

int main(int argc, char** argv)
{
    vp::Args a(argc, argv);
    vp::Trace tr(a.trace);
    vp::Rng rng(a.seed);
    tr.put(vp::Ev("reset"));
    static const std::vector<std::string> forms = { "utf8", "utf8", "utf8", "shift", "shift", "ascii", "char" };
    for (const vp::J& s : a.scripts) {
        Units u; for (auto& x : s["in"].a) u.push_back(x.n);
        bool dec = s["dir"].s == "decode";
        std::string form = dec && !rng.chance(5) ? s["form"].s : rng.pick(forms);
        if (dec && form == "utf8" && s["form"].s != "utf8") form = s["form"].s;
        one(tr, rng, form, dec, u);
    }
    for (long k = 0; k < a.episodes; ++k) {
        std::string form = rng.pick(forms); bool dec = rng.chance(60);
        one(tr, rng, form, dec, random_input(rng, form, dec));
    }
}
