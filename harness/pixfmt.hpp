// Driver of properties I01 (pixel formats) and I04 (casts of buffer formats).
#include "common.hpp"
#include <memory>
#include <array>
#include <algorithm>
#include <type_traits>
#include <stdexcept>
#include <archon/image.hpp>
#include <archon/image/indexed_pixel_format.hpp>
#include <archon/image/packed_pixel_format.hpp>
#include <archon/image/subword_pixel_format.hpp>
#include <archon/image/channel_packing.hpp>
#include <archon/image/buffer_format.hpp>
using namespace archon;
using namespace archon::image;
static vp::Rng* rng; static vp::Trace* t;
static constexpr auto BIG = core::Endianness::big, LIT = core::Endianness::little;
using BF = BufferFormat;

struct Fmt {
    std::string kind; int wb = 8, b = 8, d = 1; bool big = true; int n = 1; std::vector<std::array<int, 2>> fields; int cw = 1, np = 1; bool pbig = true, align = false, alpha = false, af = false, rev = false, idx = false;
    int t = 8, depth = 8;
    std::string json(bool all) const
    {
        std::string s = "{\"kind\":\"" + kind + "\""; auto i = [&](const char* k, int v) { s += std::string(",\"") + k + "\":" + std::to_string(v); }; auto o = [&](const char* k, bool v) { s += std::string(",\"") + k + "\":" + (v ? "true" : "false"); };
        i("wb", wb); i("b", b); i("d", d); o("big", big); i("n", n); s += ",\"fields\":["; for (std::size_t k = 0; k < fields.size(); ++k) s += (k ? ",[" : "[") + std::to_string(fields[k][0]) + "," + std::to_string(fields[k][1]) + "]"; s += "]";
        i("cw", cw); i("np", np); o("pbig", pbig); o("align", align); o("alpha", alpha); o("af", af); o("rev", rev); o("idx", idx); if (all) { i("t", t); i("depth", depth); } return s + "}";
    }
};
static int tbits(int depth) { return depth <= 8 ? 8 : depth <= 16 ? 16 : 1; }
template<class F> struct Desc;
template<class C, class W, int B, class S, int D, core::Endianness E, bool F, bool G> struct Desc<IntegerPixelFormat<C, W, B, S, D, E, F, G>> {
    static Fmt get() { Fmt f; f.kind = "integer"; f.wb = 8 * int(sizeof(W)); f.b = B; f.d = D; f.big = E == BIG; f.n = C::num_channels; f.alpha = C::has_alpha_channel; f.af = F; f.rev = G; f.depth = B * D; f.t = tbits(B * D); return f; } };
template<class C, class S, class P, class W, int B, int D, core::Endianness E, bool F, bool G> struct Desc<PackedPixelFormat<C, S, P, W, B, D, E, F, G>> {
    static Fmt get() { Fmt f; f.kind = "packed"; f.wb = 8 * int(sizeof(W)); f.b = B; f.d = D; f.big = E == BIG; f.n = C::num_channels; f.alpha = C::has_alpha_channel; f.af = F; f.rev = G; f.depth = 0;
        for (auto x : P::fields) { f.fields.push_back({x.width, x.gap}); f.depth = std::max(f.depth, x.width); } f.t = tbits(f.depth); return f; } };
template<class C, class W, int B, int D, core::Endianness E, bool F, bool G, bool H> struct Desc<SubwordPixelFormat<C, W, B, D, E, F, G, H>> {
    static Fmt get() { Fmt f; f.kind = "slots"; f.wb = 8 * int(sizeof(W)); f.n = C::num_channels; f.b = B * D * f.n; f.cw = B; f.np = D; f.pbig = E == BIG; f.align = H; f.alpha = C::has_alpha_channel; f.af = F; f.rev = G; f.depth = B; f.t = tbits(B); return f; } };
template<class S, int M, int N, core::Endianness A, class W, int B, int D, core::Endianness E, bool H> struct Desc<IndexedPixelFormat<S, M, N, A, W, B, D, E, H>> {
    static Fmt get() { Fmt f; f.kind = "slots"; f.idx = true; f.wb = 8 * int(sizeof(W)); f.b = B; f.d = D; f.big = E == BIG; f.cw = M; f.np = N; f.pbig = A == BIG; f.align = H; return f; } };

static const Image& palette() { static const Pixel_RGB_8 c[] = { Pixel_RGB_8(util::Color(1, 2, 3)), Pixel_RGB_8(util::Color(4, 5, 6)) }; static const PaletteImage<RGB_8> p(c); return p; }
template<class F> F make() { if constexpr (F::is_indexed_color) return F(palette()); else return F(); }
template<class W> std::vector<int> parts(const W* p, std::size_t n)
{
    std::vector<int> r; using U = std::make_unsigned_t<W>; constexpr int wb = 8 * int(sizeof(W)), m = wb < 16 ? wb : 16;
    for (std::size_t i = 0; i < n; ++i) for (int s = wb - m; s >= 0; s -= m) r.push_back(int((U(p[i]) >> s) & ((1u << m) - 1)));
    return r;
}
template<class C> int get_comp(C v) { if constexpr (std::is_floating_point_v<C>) return v == 0 ? 0 : v == 1 ? 1 : -1; else return int(unpack_int<8 * int(sizeof(C))>(v)); }
template<class C> C put_comp(int v) { if constexpr (std::is_floating_point_v<C>) return C(v); else return pack_int<C, 8 * int(sizeof(C))>(v); }
static std::vector<int> random_pixel(const Fmt& f)
{
    std::vector<int> r;
    if (f.t == 1) { for (int c = 0; c < f.n; ++c) r.push_back(int(rng->below(2))); if (f.alpha && r.back() == 0) std::fill(r.begin(), r.end(), 0); return r; }
    int max = f.idx ? (1 << f.cw) - 1 : (1 << f.t) - 1;
    for (int c = 0; c < f.n; ++c) r.push_back(rng->chance(15) ? 0 : rng->chance(15) ? max : int(rng->below(max + 1)));
    return r;
}
static BF::IntegerType itype(int k) { static const BF::IntegerType v[] = { BF::IntegerType::byte, BF::IntegerType::char_, BF::IntegerType::short_, BF::IntegerType::int_, BF::IntegerType::long_, BF::IntegerType::llong }; return v[k]; }
static void conf(Fmt& f, const BF::ChannelConf& c) { f.n = c.get_num_channels(); f.alpha = c.has_alpha; f.af = c.alpha_channel_first; f.rev = c.reverse_order; }
static Fmt from(const BF::IntegerFormat& g) { Fmt f; f.kind = "integer"; f.wb = BF::get_bits_per_word(g.word_type); f.b = g.bits_per_word; f.d = g.words_per_channel; f.big = g.word_order == BIG; conf(f, g.channel_conf); return f; }
static Fmt from(const BF::PackedFormat& g) { Fmt f; f.kind = "packed"; f.wb = BF::get_bits_per_word(g.word_type); f.b = g.bits_per_word; f.d = g.words_per_pixel; f.big = g.word_order == BIG; conf(f, g.channel_conf); for (int i = 0; i < f.n; ++i) f.fields.push_back({g.bit_fields[i].width, g.bit_fields[i].gap}); return f; }
static Fmt from(const BF::SubwordFormat& g) { Fmt f; f.kind = "slots"; f.wb = BF::get_bits_per_word(g.word_type); conf(f, g.channel_conf); f.cw = g.bits_per_channel; f.np = g.pixels_per_word; f.b = f.n * f.cw * f.np; f.pbig = g.bit_order == BIG; f.align = g.word_aligned_rows; return f; }
static Fmt from(const BF::IndexedFormat& g) { Fmt f; f.kind = "slots"; f.idx = true; f.wb = BF::get_bits_per_word(g.word_type); f.b = g.bits_per_word; f.d = g.words_per_compound; f.big = g.word_order == BIG; f.cw = g.bits_per_pixel; f.np = g.pixels_per_compound; f.pbig = g.bit_order == BIG; f.align = g.compound_aligned_rows; return f; }
static Fmt from(const BF& g) { switch (g.type) { case BF::Type::integer: return from(g.integer); case BF::Type::packed: return from(g.packed); case BF::Type::subword: return from(g.subword); default: return from(g.indexed); } }

template<class F> void run(long steps)
{
    using W = typename F::word_type; using C = typename F::transf_comp_type; Fmt f = Desc<F>::get();
    int w = rng->chance(8) ? 0 : int(rng->range(1, 6)), h = rng->chance(4) ? 0 : int(rng->range(1, 4)); if (rng->chance(10)) { w = int(rng->range(7, 21)); h = int(rng->range(1, 2)); }
    std::size_t size = F::get_buffer_size(Size(w, h)); bool clear = f.t == 1 || rng->chance(50); std::size_t extra = rng->chance(30) ? std::size_t(rng->range(1, 3)) : 0;
    std::unique_ptr<BufferedImage<F>> img; std::unique_ptr<W[]> mem; W* p; int how = clear ? int(rng->below(3)) : int(rng->range(1, 2)); W canary = W(85);
    if (how == 0) { img = std::make_unique<BufferedImage<F>>(Size(w, h), make<F>()); p = img->get_buffer().data(); extra = img->get_buffer().size() - size; }
    else {
        mem.reset(new W[size + extra]()); p = mem.get(); 
        if (!clear) { // all bits that are in use
            BufferedImage<F> tmp(Size(w, h), make<F>()); std::vector<C> ones(8, put_comp<C>(f.idx ? (1 << f.cw) - 1 : f.t == 8 ? 255 : 65535)); tmp.fill(Box(Size(w, h)), ones.data());
            using U = std::make_unsigned_t<W>; const W* q = tmp.get_buffer().data(); for (std::size_t i = 0; i < size; ++i) p[i] = W(U(q[i]) & U(rng->next())); }
        for (std::size_t i = 0; i < extra; ++i) p[size + i] = canary;
        if (how == 1) img = std::make_unique<BufferedImage<F>>(Size(w, h), core::Span<W>(p, size + extra), make<F>());
        else img = std::make_unique<BufferedImage<F>>(Size(w, h), std::move(mem), size + extra, make<F>());
    }
    int tb = f.idx ? 8 : img->get_transfer_info().comp_repr == CompRepr::int8 ? 8 : img->get_transfer_info().comp_repr == CompRepr::int16 ? 16 : 1;
    auto dump = [&] { std::vector<int> v = parts(p, size); for (std::size_t i = 0; i < extra; ++i) if (how && p[size + i] != canary) v.push_back(-1); return v; };
    if (img->get_size() != Size(w, h)) tb = -1;
    t->put(vp::Ev("reset").raw("f", f.json(true)).i("w", w).i("h", h).b("clear", clear).i("words", long(img->get_buffer().size()) - long(extra)).seq("mem", dump()).i("t", tb).i("depth", img->get_transfer_info().bit_depth));
    {
        BF bf; const void* q = nullptr; const BufferedImage<F>& ci = *img; bool ok = ci.try_get_buffer(bf, q); BF bf2; void* q2 = nullptr; bool ok2 = img->try_get_writable_buffer(bf2, q2);
        t->put(vp::Ev("describe").b("ok", ok && ok2).raw("g", ok ? from(bf).json(false) : f.json(false)).b("same", q == p && q2 == p && (!ok || from(bf).json(false) == from(bf2).json(false)) && (!ok || bf.is_valid())));
    }
    for (long s = 0; s < steps; ++s) {
        int bw = int(rng->range(rng->chance(5) ? 0 : 1, std::max(w, 1))), bh = int(rng->range(rng->chance(5) ? 0 : 1, std::max(h, 1))); bw = std::min(bw, w); bh = std::min(bh, h); if (rng->chance(40)) { bw = std::min(bw, 2); bh = std::min(bh, 2); }
        int x = int(rng->range(0, w - bw)), y = int(rng->range(0, h - bh)); long k = rng->below(100); t->flush();
        int gap = int(rng->below(3)), rgap = int(rng->below(3)); long hs = f.n + gap, vs = hs * bw + rgap; if (rng->chance(15)) { vs = f.n + gap; hs = vs * bh + rgap; }
        std::vector<C> v(std::size_t(hs * bw + vs * bh + f.n), put_comp<C>(1)); auto at = [&](int i, int j) { return v.data() + hs * i + vs * j; };
        if (k < 40) {
            std::vector<int> all; for (int j = 0; j < bh; ++j) for (int i = 0; i < bw; ++i) { auto px = random_pixel(f); for (int c = 0; c < f.n; ++c) at(i, j)[c] = put_comp<C>(px[std::size_t(c)]); all.insert(all.end(), px.begin(), px.end()); }
            img->write({x, y}, Tray<const C> { Iter<const C> { v.data(), hs, vs }, Size(bw, bh) }.template cast_to<const void>());
            t->put(vp::Ev("write").i("x", x).i("y", y).i("w", bw).i("h", bh).seq("c", all).seq("mem", dump()));
        }
        else if (k < 65) {
            auto px = random_pixel(f); std::vector<C> c; for (int a : px) c.push_back(put_comp<C>(a)); img->fill(Box({x, y}, Size(bw, bh)), c.data());
            t->put(vp::Ev("fill").i("x", x).i("y", y).i("w", bw).i("h", bh).seq("c", px).seq("mem", dump()));
        }
        else if (k < 95) {
            C mark = std::is_floating_point_v<C> ? C(-7) : put_comp<C>(77); std::fill(v.begin(), v.end(), mark); std::vector<bool> used(v.size());
            img->read({x, y}, Tray<C> { Iter<C> { v.data(), hs, vs }, Size(bw, bh) }.template cast_to<void>());
            std::vector<int> all; for (int j = 0; j < bh; ++j) for (int i = 0; i < bw; ++i) for (int c = 0; c < f.n; ++c) { all.push_back(get_comp(at(i, j)[c])); used[std::size_t(at(i, j) + c - v.data())] = true; }
            bool clean = true; for (std::size_t i = 0; i < v.size(); ++i) if (!used[i] && v[i] != mark) clean = false;
            t->put(vp::Ev("read").i("x", x).i("y", y).i("w", bw).i("h", bh).seq("c", all).b("clean", clean));
        }
        else {
            int w2 = int(rng->range(0, 9)), h2 = int(rng->range(0, 9)); long need = long(F::get_buffer_size(Size(w2, h2))); long n = std::max(0L, need + rng->range(-2, 2)); std::vector<W> b(static_cast<std::size_t>(n)); bool ok = true;
            try { BufferedImage<F> im(Size(w2, h2), core::Span<W>(b.data(), b.size()), make<F>()); } catch (const std::invalid_argument&) { ok = false; }
            t->put(vp::Ev("attach").i("w", w2).i("h", h2).i("n", n).b("ok", ok));
        }
    }
}

// ---- I04
static bool sane(const BF& f) { return f.is_valid(); }
template<class G> static void cast(const BF& bf, int k, bool kind_same, int nowtype)
{
    static const auto space = [](int n, bool alpha) -> const ColorSpace& { return n - int(alpha) == 3 ? ColorSpace::get_rgb() : ColorSpace::get_lum(); }; (void)space;
    G g {}; G before; { g.channel_conf.color_space = &ColorSpace::get_lum(); g.word_type = BF::IntegerType::llong; } before = g; Fmt f = from(bf); t->flush();
    bool ok = bf.try_cast_to(g, itype(k)); core::Endianness e = BIG; core::try_get_byte_order<int>(e); bool le = e == LIT;
    if (!ok && std::memcmp(&g, &before, sizeof g) != 0) ok = true;
    // Values that do not matter are not looked at
    vp::Ev ev("cast"); ev.raw("f", f.json(false)).i("wb", BF::get_bits_per_word(itype(k))).b("ok", ok).b("valid", ok ? g.is_valid() && g.word_type == itype(k) : true).raw("g", (ok && g.is_valid() ? from(g) : f).json(false)).b("le", le).i("w", rng->range(1, 4)).i("h", rng->range(1, 3)).b("same", k == nowtype).b("bytes", k == 0).b("must", kind_same && k == nowtype);
    t->put(ev);
}
static void casts(long steps)
{
    t->put(vp::Ev("reset").raw("f", Desc<IntegerPixelFormat_Lum_8>::get().json(true)).i("w", 1).i("h", 1).b("clear", true).i("words", 1).seq("mem", std::vector<int> { 0 }).i("t", 8).i("depth", 8));
    for (long s = 0; s < steps; ++s) {
        BF bf; int wt = rng->chance(30) ? 0 : int(rng->below(6)); auto T = itype(wt); int wb = BF::get_bits_per_word(T); bool alpha = rng->chance(50), rgb = rng->chance(60), af = rng->chance(40), rev = rng->chance(40); const ColorSpace& cs = rgb ? ColorSpace::get_rgb() : ColorSpace::get_lum();
        int n = (rgb ? 3 : 1) + int(alpha); auto E = rng->chance(50) ? BIG : LIT; auto bits = [&] { return rng->chance(65) ? wb : rng->chance(30) ? 8 : int(rng->range(1, wb)); };
        long k = rng->below(3);
        if (k == 0) bf.set_integer_format(T, bits(), int(rng->range(1, 4)), E, cs, alpha, af, rev);
        else if (k == 1) {
            int d = int(rng->chance(50) ? rng->range(1, 4) : n * rng->range(1, 2)), b = bits(); std::vector<BitField> fs; 
            if (rng->chance(60)) { int part = b * d / n, g = rng->chance(70) ? 0 : int(rng->below(part)); if (part == 0) continue; for (int i = 0; i < n; ++i) { int wd = rng->chance(92) ? part - g : int(rng->range(1, part)); fs.push_back({wd, i + 1 == n ? (rng->chance(70) ? 0 : g) : part - wd}); } }
            else { int left = b * d; for (int i = 0; i < n; ++i) { int wd = int(rng->range(1, std::max(1, left / (n - i)))), g = rng->chance(60) ? 0 : int(rng->below(3)); fs.push_back({wd, g}); left -= wd + g; } }
            bf.set_packed_format(T, b, d, E, core::Span<const BitField>(fs.data(), fs.size()), cs, alpha, af, rev);
        }
        else { int per = wb / n; if (per == 0) continue; int c = rng->chance(50) && per >= 8 ? 8 : int(rng->range(1, per)); if (rng->chance(30)) c = per; int m = wb / (n * c); bf.set_subword_format(T, c, rng->chance(60) ? m : int(rng->range(1, m)), E, rng->chance(40), cs, alpha, af, rev); }
        if (!sane(bf)) continue;
        int to = rng->chance(50) ? wt : rng->chance(85) ? 0 : int(rng->below(6));
        if (rng->chance(50)) cast<BF::IntegerFormat>(bf, to, k == 0, wt); else cast<BF::SubwordFormat>(bf, to, k == 2, wt);
    }
}

using XRGB = ChannelSpec_RGB; using XRGBA = ChannelSpec_RGBA; using XL = ChannelSpec_Lum; using XLA = ChannelSpec_LumA; using i8 = int8_type; using i16 = int16_type; using i32 = int32_type; using i64 = int64_type; using u8 = unsigned char; using u16 = unsigned short;
template<class...> struct List {};
#if PART == 1
using Formats = List<
    IntegerPixelFormat_Lum<i8>,
    IntegerPixelFormat_LumA<i8, 8, i16, 2, BIG>,
    IntegerPixelFormat<XRGB, u16, 6, u16, 2, BIG, false, true>,
    PackedPixelFormat_RGB<i16, ChannelPacking_565>,
    PackedPixelFormat<XRGB, i32, ChannelPacking_888, i8, 8, 3, BIG>,
    PackedPixelFormat<XLA, i64, TwoChannelPacking<20, 3, 17, 1>>,
    SubwordPixelFormat<XL, i8, 2, 3, BIG>,
    SubwordPixelFormat<XL, i16, 4, 4, BIG, false, false, false>,
    IndexedPixelFormat<i8, 1, 8, LIT>,
    IndexedPixelFormat<i32, 7, 3, LIT, i16, 11, 2, BIG, true>>;
#elif PART == 2
using Formats = List<
    IntegerPixelFormat_LumA<i8>,
    IntegerPixelFormat<XRGBA, i8, 8, i8, 1, BIG, true, false>,
    IntegerPixelFormat_RGBA<i32, 32, i32>,
    PackedPixelFormat_RGB<i8, ChannelPacking_332>,
    PackedPixelFormat<XRGB, i32, ChannelPacking_888, i8, 8, 3, LIT, false, true>,
    PackedPixelFormat<XL, i8, OneChannelPacking<5, 2>>,
    SubwordPixelFormat<XLA, i8, 2, 2, LIT, true, false, false>,
    SubwordPixelFormat<XL, i16, 9, 1>,
    IndexedPixelFormat<i8, 2, 4, BIG, i8, 8, 1, BIG, false>,
    IndexedPixelFormat<i64, 1, 31, BIG, i8, 8, 4, LIT, false>>;
#elif PART == 3
using Formats = List<
    IntegerPixelFormat_RGB<i8>,
    IntegerPixelFormat<XRGBA, u8, 8, u8, 1, BIG, false, true>,
    IntegerPixelFormat_Lum<i8, 8, i32, 3, LIT>,
    PackedPixelFormat_RGB<i8, ChannelPacking_233>,
    PackedPixelFormat<XRGB, i16, ThreeChannelPacking<4, 1, 5, 2, 3, 1>>,
    SubwordPixelFormat<XL, i8, 1, 8>,
    SubwordPixelFormat<XRGB, i16, 2, 2, BIG, false, true>,
    SubwordPixelFormat<XLA, i64, 12, 2, BIG, false, true>,
    IndexedPixelFormat<i8, 4, 2, LIT, i8, 8, 1, BIG, false>,
    IndexedPixelFormat<u8, 1, 3, BIG, u8, 8, 1, BIG, false>>;
#elif PART == 4
using Formats = List<
    IntegerPixelFormat_RGBA<i8>,
    IntegerPixelFormat<XRGBA, i16, 11, i16, 1, BIG, true, true>,
    IntegerPixelFormat_LumA<i64, 32, i64>,
    PackedPixelFormat_RGBA<i16, ChannelPacking_5551>,
    PackedPixelFormat<XRGBA, i32, FourChannelPacking<3, 0, 9, 2, 1, 1, 6, 3>, i16, 13, 2, LIT, true, false>,
    SubwordPixelFormat<XL, i8, 1, 8, LIT>,
    SubwordPixelFormat<XRGBA, i16, 2, 2, LIT, true, false, false>,
    SubwordPixelFormat<XL, i64, 20, 3, BIG, false, false, false>,
    IndexedPixelFormat<i16, 3, 5>,
    IndexedPixelFormat<i16, 2, 6, LIT, u8, 6, 2, LIT, true>>;
#elif PART == 5
using Formats = List<
    IntegerPixelFormat_RGBA<i16, 16, i16>,
    IntegerPixelFormat<XRGB, i8, 5, i16, 3, LIT, true, true>,
    IntegerPixelFormat<XRGBA, i32, 24, i32, 1, BIG, true, false>,
    PackedPixelFormat_RGBA<i16, ChannelPacking_4444>,
    PackedPixelFormat<XRGBA, i64, FourChannelPacking<16, 0, 16, 0, 16, 0, 16, 0>, i16, 16, 4, LIT, true, true>,
    SubwordPixelFormat<XL, i8, 1, 8, BIG, false, false, false>,
    SubwordPixelFormat<XRGBA, i32, 8, 1>,
    IndexedPixelFormat<i8, 8>,
    IndexedPixelFormat<i16, 3, 5, LIT, i8, 8, 2, LIT, false>>;
#elif PART == 6
using Formats = List<
    IntegerPixelFormat_RGB<i8, 8, i16, 2, LIT>,
    IntegerPixelFormat<XLA, i8, 3, i8, 1, LIT, true, false>,
    IntegerPixelFormat_Lum<i8, 1, i8>,
    PackedPixelFormat_RGBA<i32, ChannelPacking_8888>,
    PackedPixelFormat<XLA, i16, TwoChannelPacking<9, 1, 5, 0>>,
    SubwordPixelFormat<XL, i8, 1, 8, LIT, false, false, false>,
    SubwordPixelFormat<XRGB, i64, 5, 4, LIT, true, true, false>,
    IndexedPixelFormat<i8, 1, 8>,
    IndexedPixelFormat<i32, 5, 4, BIG, i8, 7, 3, BIG>>;
#else
using Formats = List<>;
#endif
template<class... F> static void one(List<F...>, long k, long steps) { long i = 0; ((i++ == k ? run<F>(steps) : void()), ...); }
template<class... F> static constexpr long count(List<F...>) { return sizeof...(F); }

int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Trace tr(a.trace); vp::Rng r(a.seed); t = &tr; rng = &r;
    for (long e = 0; e < a.episodes; ++e) { if (PART == 0) casts(a.steps); else one(Formats(), (e + long(a.seed) * 7) % (count(Formats()) + (PART == 0)), a.steps); }
}
