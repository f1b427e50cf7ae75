// Common driver of properties I02 (reading) and I03 (writing of images).
#include "common.hpp"
#include <climits>
#include <memory>
#include <array>
#include <algorithm>
#include <archon/image.hpp>
#include <archon/image/indexed_pixel_format.hpp>
using namespace archon;
static vp::Rng* rng; static vp::Trace* t;
using CR = image::CompRepr;
static const int U = 1 << 24, Full = 127, BAD = -1;
template<CR R> using rtag = std::integral_constant<CR, R>;
template<class F> static void with(CR r, F f) { switch (r) { case CR::int8: f(rtag<CR::int8>()); break; case CR::int16: f(rtag<CR::int16>()); break; default: f(rtag<CR::float_>()); } }
static const std::vector<float>& lin() { static const std::vector<float> v = [] { std::vector<float> a; for (int i = 0; i < 256; ++i) a.push_back(image::compressed_int_to_float<8>(i)); return a; }(); return v; }
static const image::ColorSpace& space(bool lum) { return lum ? image::ColorSpace::get_lum() : image::ColorSpace::get_rgb(); }
static const std::vector<CR> reprs = { CR::int8, CR::int16, CR::float_ };

static int norm(CR r, int p) { return r == CR::float_ && p / U == 0 ? 0 : p; }
template<CR R> void enc(int p, bool lum, bool alpha, image::comp_type<R>* c)
{
    int a = p / U; int n = 0;
    auto put = [&](int v, bool al) {
        if constexpr (R == CR::int8) c[n++] = image::pack_int<image::int8_type, 8>(v);
        else if constexpr (R == CR::int16) c[n++] = image::pack_int<image::int16_type, 16>(v * 257);
        else c[n++] = al ? float(a) / float(Full) : a == 0 ? 0.0f : lin()[std::size_t(v)];
    };
    if (lum) put(p & 255, false); else { put((p >> 16) & 255, false); put((p >> 8) & 255, false); put(p & 255, false); }
    if (alpha) put(a == Full ? 255 : 2 * a, true);
}
template<CR R> int dec(const image::comp_type<R>* c, bool lum, bool alpha)
{
    int n = 0; bool ok = true;
    auto get = [&](bool al) -> int {
        if constexpr (R == CR::int8) return int(image::unpack_int<8>(c[n++]));
        else if constexpr (R == CR::int16) { int v = int(image::unpack_int<16>(c[n++])); if (v % 257) ok = false; return v / 257; }
        else { float f = c[n++]; if (al) { if (f != 0 && f != 1) ok = false; return f == 1 ? 255 : 0; }
            auto i = std::lower_bound(lin().begin(), lin().end(), f); if (i == lin().end() || *i != f) { ok = false; return 0; } return int(i - lin().begin()); }
    };
    int p; if (lum) { int v = get(false); p = v * 0x10101; } else { int r = get(false), g = get(false), b = get(false); p = r * 65536 + g * 256 + b; }
    int a = Full; if (alpha) { a = get(true); if (a == 255) a = Full; else if (a % 2) ok = false; else a /= 2; }
    if (R == CR::float_ && alpha && a == 0 && p != 0) ok = false;
    return ok ? a * U + p : BAD;
}

// ---- A block of memory with pixels in some layout, and canaries in between
template<CR R> struct Mem {
    using C = image::comp_type<R>;
    int w, h, n; long hs, vs; std::vector<C> v; long first; C canary;
    Mem(int w, int h, int n): w(w), h(h), n(n)
    {
        long gap = rng->chance(40) ? rng->range(0, 2) : 0, rgap = rng->chance(40) ? rng->range(0, 5) : 0;
        if (rng->chance(80)) { hs = n + gap; vs = hs * w + rgap; } else { vs = n + gap; hs = vs * h + rgap; }   // row or column major
        if constexpr (R == CR::float_) canary = -77.5f; else canary = C(83);
        first = 3; if (w > 0 && h > 0) { if (rng->chance(15)) { first += hs * (w - 1); hs = -hs; } if (rng->chance(15)) { first += vs * (h - 1); vs = -vs; } }
        long aw = std::abs(hs) * std::max(w - 1, 0), ah = std::abs(vs) * std::max(h - 1, 0);
        v.assign(std::size_t(aw + ah + n + 6), canary);
    }
    C* at(int x, int y) { return v.data() + first + hs * x + vs * y; }
    image::Tray<C> tray() { return { image::Iter<C> { v.data() + first, hs, vs }, image::Size(w, h) }; }
    bool clean() { std::vector<bool> used(v.size()); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int i = 0; i < n; ++i) used[std::size_t(at(x, y) - v.data()) + std::size_t(i)] = true;
        for (std::size_t i = 0; i < v.size(); ++i) if (!used[i] && v[i] != canary) return false; return true; }
};

static bool gray, arb; static std::vector<int> common;
static int color_part() { int v[3]; for (int& x : v) x = rng->chance(40) ? (rng->chance(50) ? 255 : 0) : int(rng->below(256)); return gray ? v[0] * 0x10101 : v[0] * 65536 + v[1] * 256 + v[2]; }
static int pixel(bool alpha, CR r)
{
    int p = !common.empty() && rng->chance(60) ? rng->pick(common) : color_part();
    int a = !alpha || rng->chance(50) ? Full : arb ? int(rng->below(128)) : 0;
    return norm(r, a * U + p % U);
}

// ---- Images
struct Img {
    std::unique_ptr<image::WritableImage> img; std::vector<std::shared_ptr<void>> own;
    int w, h; bool lum, alpha, idx = false; CR repr; std::vector<int> pal; long palsize = 0;
    std::vector<int> dump()
    {
        std::vector<int> r; if (w == 0 || h == 0) return r;
        if (idx) { std::vector<image::int8_type> b(std::size_t(w * h)); image::Tray<image::int8_type> tr { image::Iter<image::int8_type> { b.data(), 1, w }, image::Size(w, h) }; img->read({0, 0}, tr.cast_to<void>());
            for (auto c : b) r.push_back(int(image::unpack_int<8>(c))); return r; }
        with(repr, [&](auto tg) { constexpr CR R = decltype(tg)::value; int n = (lum ? 1 : 3) + int(alpha); std::vector<image::comp_type<R>> b(std::size_t(w * h * n)); 
            image::Tray<image::comp_type<R>> tr { image::Iter<image::comp_type<R>> { b.data(), n, long(n) * w }, image::Size(w, h) }; img->read({0, 0}, tr.template cast_to<void>());
            for (int i = 0; i < w * h; ++i) r.push_back(dec<R>(b.data() + i * n, lum, alpha)); });
        return r;
    }
    std::string desc() { std::string s = "{\"w\":" + std::to_string(w) + ",\"h\":" + std::to_string(h) + ",\"lum\":" + (lum ? "true" : "false") + ",\"alpha\":" + (alpha ? "true" : "false") + ",\"idx\":" + (idx ? "true" : "false");
        auto seq = [&](const char* k, const std::vector<int>& v) { s += std::string(",\"") + k + "\":["; for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); s += "]"; };
        seq("pal", pal); seq("px", dump()); return s + "}"; }
};
template<class P> static std::shared_ptr<image::Image> palette_image(const std::vector<int>& c, Img& im)
{
    constexpr CR R = P::comp_repr; using Px = image::Pixel<P>;
    std::unique_ptr<Px[]> a(new Px[c.size() + 1]); for (std::size_t i = 0; i < c.size(); ++i) enc<R>(c[i], im.lum, im.alpha, a[i].data());
    return std::make_shared<image::PaletteImage<P>>(std::move(a), c.size());
}
template<class F> static std::unique_ptr<image::WritableImage> buffered(int w, int h) { return std::make_unique<image::BufferedImage<F>>(image::Size(w, h)); }
template<CR R> static std::unique_ptr<image::WritableImage> trayed(Img& im, int w, int h, bool lum, bool alpha)
{
    int n = (lum ? 1 : 3) + int(alpha); auto m = std::make_shared<Mem<R>>(w, h, n); im.own.push_back(m);
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) std::fill_n(m->at(x, y), n, image::comp_type<R>(0));
    return std::make_unique<image::WritableTrayImage<R>>(m->tray(), space(lum), alpha);
}
static std::unique_ptr<image::WritableImage> direct(Img& im, int w, int h, CR repr, bool lum, bool alpha)
{
    if (repr == CR::float_ || rng->chance(40)) {
        std::unique_ptr<image::WritableImage> p; with(repr, [&](auto tg) { p = trayed<decltype(tg)::value>(im, w, h, lum, alpha); }); return p;
    }
    bool le = rng->chance(30);
    using image::int8_type; using image::int16_type; using namespace image; auto L = core::Endianness::little; (void)L;
    if (repr == CR::int8) {
        if (lum && !alpha) return buffered<IntegerPixelFormat_Lum<int8_type>>(w, h);
        if (lum) return le ? buffered<IntegerPixelFormat<ChannelSpec_LumA, int8_type, 8, int8_type, 1, core::Endianness::big, true>>(w, h) : buffered<IntegerPixelFormat_LumA<int8_type>>(w, h);
        if (!alpha) return le ? buffered<IntegerPixelFormat<ChannelSpec_RGB, int8_type, 8, int8_type, 1, core::Endianness::big, false, true>>(w, h) : buffered<IntegerPixelFormat_RGB<int8_type>>(w, h);
        return le ? buffered<IntegerPixelFormat<ChannelSpec_RGBA, int8_type, 8, int8_type, 1, core::Endianness::big, true, true>>(w, h) : buffered<IntegerPixelFormat_RGBA<int8_type>>(w, h);
    }
    if (lum && !alpha) return buffered<IntegerPixelFormat_Lum<int16_type, 16, int16_type>>(w, h);
    if (lum) return buffered<IntegerPixelFormat_LumA<int16_type, 16, int16_type>>(w, h);
    if (!alpha) return le ? buffered<IntegerPixelFormat_RGB<int8_type, 8, int16_type, 2, core::Endianness::little>>(w, h) : buffered<IntegerPixelFormat_RGB<int16_type, 16, int16_type>>(w, h);
    return le ? buffered<IntegerPixelFormat_RGBA<int8_type, 8, int16_type, 2, core::Endianness::little>>(w, h) : buffered<IntegerPixelFormat_RGBA<int16_type, 16, int16_type>>(w, h);
}
static void setup(image::WritableImage& g, int w, int h, CR repr, bool lum, bool alpha, const std::vector<int>& px)
{
    if (w == 0 || h == 0) return;
    with(repr, [&](auto tg) { constexpr CR R = decltype(tg)::value; int n = (lum ? 1 : 3) + int(alpha); Mem<R> m(w, h, n);
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) enc<R>(px[std::size_t(y * w + x)], lum, alpha, m.at(x, y));
        const image::Tray<image::comp_type<R>> tr = m.tray(); g.write({0, 0}, image::Tray<const image::comp_type<R>>(tr).template cast_to<const void>()); });
}
static std::unique_ptr<Img> make(int w, int h, bool idx)
{
    auto p = std::make_unique<Img>(); Img& im = *p; im.w = w; im.h = h; im.lum = gray && rng->chance(60); im.alpha = rng->chance(60); im.idx = idx;
    im.repr = arb ? CR::int8 : rng->pick(reprs);
    if (!idx) { im.img = direct(im, w, h, im.repr, im.lum, im.alpha); std::vector<int> px; for (int i = 0; i < w * h; ++i) px.push_back(pixel(im.alpha, im.repr)); setup(*im.img, w, h, im.repr, im.lum, im.alpha, px); return p; }
    long n = rng->chance(12) ? 0 : rng->chance(80) ? rng->range(1, 9) : rng->range(10, 300); int ph = 1;
    bool multi = n > 0 && rng->chance(40); if (multi && n > 3) { ph = int(rng->range(1, 5)); n -= n % ph; }
    for (long i = 0; i < n; ++i) im.pal.push_back(pixel(im.alpha, im.repr));
    im.palsize = n; std::shared_ptr<image::Image> pi;
    if (multi) { int pw = int(n) / ph; auto q = direct(im, pw, ph, im.repr, im.lum, im.alpha); setup(*q, pw, ph, im.repr, im.lum, im.alpha, im.pal); pi = std::move(q); }
    else with(im.repr, [&](auto tg) { constexpr CR R = decltype(tg)::value; using image::ColorSpace;
        if (im.lum) pi = im.alpha ? palette_image<image::PixelRepr<ColorSpace::Tag::lum, true, R>>(im.pal, im) : palette_image<image::PixelRepr<ColorSpace::Tag::lum, false, R>>(im.pal, im);
        else pi = im.alpha ? palette_image<image::PixelRepr<ColorSpace::Tag::rgb, true, R>>(im.pal, im) : palette_image<image::PixelRepr<ColorSpace::Tag::rgb, false, R>>(im.pal, im); });
    if (im.pal.size() > 256) im.pal.resize(256);
    im.own.push_back(pi); const image::Image& pal = *pi;
    if (rng->chance(50)) { image::IndexedPixelFormat_8<> f(pal); im.img = std::make_unique<image::BufferedImage<image::IndexedPixelFormat_8<>>>(image::Size(w, h), std::move(f)); }
    else { auto m = std::make_shared<Mem<CR::int8>>(w, h, 1); im.own.push_back(m); im.img = std::make_unique<image::WritableIndexedTrayImage<CR::int8>>(m->tray(), pal); }
    if (w > 0 && h > 0) { Mem<CR::int8> m(w, h, 1); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) *m.at(x, y) = image::pack_int<image::int8_type, 8>(im.pal.empty() || rng->chance(8) ? int(rng->below(256)) : int(rng->below(long(im.pal.size()))));
        im.img->write({0, 0}, image::Tray<const image::int8_type>(m.tray()).cast_to<const void>()); }
    return p;
}

// ---- Positions
static int dim() { return rng->chance(90) ? int(rng->range(0, 9)) : 1; }
static void box(const Img& im, int& x, int& y, int& w, int& h, bool reading)
{
    auto one = [&](int n, int& pos, int& size) {
        size = rng->chance(4) ? 0 : rng->chance(85) ? int(rng->range(1, 7)) : n > 20 || rng->chance(10) ? int(rng->range(1, 75)) : int(rng->range(1, 20));
        long k = rng->below(100);
        if (k < 60) pos = int(rng->range(-size - 1, n + 1)); else if (k < 80) pos = int(rng->range(-40, 60));
        else if (k < 88) pos = INT_MAX - size - int(rng->chance(60) ? 0 : rng->below(20)); else if (k < 96) pos = INT_MIN + int(rng->chance(60) ? 0 : rng->below(20));
        else pos = int(rng->range(INT_MIN, long(INT_MAX) - size));
    };
    one(im.w, x, w); one(im.h, y, h);
    if (long(w) * h > 1500) { if (rng->chance(50)) h = 1500 / w; else w = 1500 / h; }
    (void)reading;
}
static std::string num(long v) { return std::to_string(v); }

struct Acc { image::Reader* r; Img* im; bool s; bool bg_opaque = false; int fg = 127 * U + (U - 1), bg = 0; bool fh_bg = true, fv_bg = true; };

static const char* fname(image::Reader::FalloffMode m) { using M = image::Reader::FalloffMode; return m == M::background ? "background" : m == M::edge ? "edge" : "repeat"; }

static void op_falloff(Acc& a)
{
    using M = image::Reader::FalloffMode; static const std::vector<M> ms = { M::background, M::edge, M::repeat };
    M h = rng->pick(ms), v = rng->pick(ms); if (rng->chance(30)) { v = h; a.r->set_falloff_mode(h); } else a.r->set_falloff_mode(h, v);
    t->put(vp::Ev("falloff").b("s", a.s).s("h", fname(h)).s("v", fname(v)));
}
// A color in some form. In arb episodes only in ways that keep all of it.
static void some_form(const Img& im, CR& r, bool& lum, bool& alpha)
{
    r = arb ? im.repr : rng->chance(50) ? im.repr : rng->pick(reprs); lum = arb ? im.lum : gray ? rng->chance(50) : false; alpha = arb ? im.alpha : rng->chance(60);
}
static void op_color(Acc& a)
{
    CR r; bool lum, alpha; some_form(*a.im, r, lum, alpha); bool fg = rng->chance(40); int p = pixel(alpha, r);
    int op = arb ? 1 : int(!rng->chance(15)); auto slot = fg ? image::Reader::ColorSlot::foreground : image::Reader::ColorSlot::background;
    bool same = r == a.im->repr; t->flush();
    if (!gray && !arb && rng->chance(25)) {
        int al = p / U == Full ? 255 : 0; util::Color c(util::Color::comp_type((p >> 16) & 255), util::Color::comp_type((p >> 8) & 255), util::Color::comp_type(p & 255), util::Color::comp_type(al));
        if (fg) a.r->set_foreground_color(c, float(op)); else a.r->set_background_color(c, float(op)); same = a.im->repr == CR::int8; lum = false;
    }
    else with(r, [&](auto tg) { constexpr CR R = decltype(tg)::value; image::comp_type<R> c[4]; enc<R>(p, lum, alpha, c); a.r->set_color_a<R>(slot, c, space(lum), alpha, float(op)); });
    t->put(vp::Ev("color").b("s", a.s).b("fg", fg).i("p", p).b("lum", lum).b("same", same).i("op", op));
    if (!fg) a.bg_opaque = p / U == Full && op == 1;
}
static void op_getcolor(Acc& a)
{
    CR r; bool lum, alpha; some_form(*a.im, r, lum, alpha); if (arb) alpha = true; bool fg = rng->chance(50); auto slot = fg ? image::Reader::ColorSlot::foreground : image::Reader::ColorSlot::background; int p = 0; t->flush();
    with(r, [&](auto tg) { constexpr CR R = decltype(tg)::value; image::comp_type<R> c[4]; a.r->get_color_a<R>(slot, c, space(lum), alpha); p = dec<R>(c, lum, alpha); });
    t->put(vp::Ev("getcolor").b("s", a.s).b("fg", fg).i("p", p).b("lum", lum).b("alpha", alpha).b("same", r == a.im->repr));
}
static void op_palette(Acc& a)
{
    CR r; bool lum, alpha; some_form(*a.im, r, lum, alpha); long i = rng->chance(80) ? rng->below(long(a.im->pal.size()) + 2) : rng->range(0, 400); int p = 0; t->flush();
    if (arb && !alpha) alpha = true;
    with(r, [&](auto tg) { constexpr CR R = decltype(tg)::value; image::comp_type<R> c[4]; a.r->palette_lookup_a<R>(std::size_t(i), c, space(lum), alpha); p = dec<R>(c, lum, alpha); });
    t->put(vp::Ev("palette").b("s", a.s).i("i", i).i("p", p).b("lum", lum).b("alpha", alpha).b("same", r == a.im->repr));
}
static void read_at(Acc& a, int x, int y, int w, int h)
{
    CR r; bool lum, alpha; some_form(*a.im, r, lum, alpha); std::vector<int> px; bool clean = true; t->flush();
    bool same = r == a.im->repr;
    if (!arb && w == 1 && h == 1 && !gray && rng->chance(30)) {
        util::Color c = a.r->get_pixel({x, y}); lum = false; alpha = true; same = a.im->repr == CR::int8;
        int al = c.alpha() == 255 ? Full : c.alpha() % 2 ? -1 : c.alpha() / 2; px.push_back(al < 0 ? BAD : al * U + c.red() * 65536 + c.green() * 256 + c.blue());
    }
    else with(r, [&](auto tg) { constexpr CR R = decltype(tg)::value; int n = (lum ? 1 : 3) + int(alpha); Mem<R> m(w, h, n);
        bool done = false;
        if constexpr (R == CR::int8) if (rng->chance(30)) { done = true; if (lum) { if (alpha) a.r->get_block_luma({x, y}, m.tray()); else a.r->get_block_lum({x, y}, m.tray()); } else if (alpha) a.r->get_block_rgba({x, y}, m.tray()); else a.r->get_block_rgb({x, y}, m.tray()); }
        if (!done) a.r->get_block_a<R>({x, y}, m.tray(), space(lum), alpha);
        for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) px.push_back(dec<R>(m.at(i, j), lum, alpha)); clean = m.clean(); });
    t->put(vp::Ev("read").b("s", a.s).i("x", x).i("y", y).i("w", w).i("h", h).b("lum", lum).b("alpha", alpha).b("same", same).seq("p", px).b("clean", clean));
}
static void op_read(Acc& a) { int x, y, w, h; box(*a.im, x, y, w, h, true); if (rng->chance(12) && w > 0 && h > 0) w = h = 1; read_at(a, x, y, w, h); }

static int g_op = 1; static bool g_blend = false;
static void op_mode(image::Writer& wr) { g_op = int(!rng->chance(20)); g_blend = rng->chance(50); wr.set_opacity(float(g_op)); if (rng->chance(50)) wr.set_blending_enabled(g_blend); else if (g_blend) wr.enable_blending(); else wr.disable_blending(); t->put(vp::Ev("mode").i("op", g_op).b("blend", g_blend)); }
static void op_fill(image::Writer& wr, Img& im)
{
    bool fg = rng->chance(60); auto slot = fg ? image::Reader::ColorSlot::foreground : image::Reader::ColorSlot::background; t->flush();
    if (arb && (im.idx)) return;
    if (rng->chance(12)) { wr.fill(slot); t->put(vp::Ev("fillall").b("fg", fg).seq("px", im.dump())); return; }
    int x, y, w, h; box(im, x, y, w, h, false); if (rng->chance(10)) { w = INT_MAX; if (x > 0) x = -x; } if (rng->chance(10)) { h = INT_MAX; if (y > 0) y = -y; }
    if (long(x) + w > INT_MAX) w = INT_MAX - x; if (long(y) + h > INT_MAX) h = INT_MAX - y;
    wr.fill(image::Box({x, y}, image::Size(w, h)), slot); t->put(vp::Ev("fill").i("x", x).i("y", y).i("w", w).i("h", h).b("fg", fg).seq("px", im.dump()));
}
static void op_put(image::Writer& wr, Img& im)
{
    if (arb && im.idx) return;
    int x, y, w, h; box(im, x, y, w, h, false); CR r; bool lum, alpha; some_form(im, r, lum, alpha); if (arb && rng->chance(20)) alpha = false;
    std::vector<int> px; bool same = r == im.repr; t->flush();
    if (rng->chance(10) && w > 0 && h > 0) w = h = 1;
    for (int i = 0; i < w * h; ++i) px.push_back(pixel(alpha, r));
    if (w == 1 && h == 1 && !gray && !arb && rng->chance(40)) {
        int p = px[0] = pixel(alpha, CR::int8); util::Color c(util::Color::comp_type((p >> 16) & 255), util::Color::comp_type((p >> 8) & 255), util::Color::comp_type(p & 255), util::Color::comp_type(p / U == Full ? 255 : 0));
        wr.put_pixel({x, y}, c); same = im.repr == CR::int8; lum = false; alpha = true;
    }
    else with(r, [&](auto tg) { constexpr CR R = decltype(tg)::value; int n = (lum ? 1 : 3) + int(alpha); Mem<R> m(w, h, n);
        for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) enc<R>(px[std::size_t(j * w + i)], lum, alpha, m.at(i, j));
        image::Tray<const image::comp_type<R>> tr = m.tray(); bool done = false;
        if constexpr (R == CR::int8) if (rng->chance(30)) { done = true; if (lum) { if (alpha) wr.put_block_luma({x, y}, tr); else wr.put_block_lum({x, y}, tr); } else if (alpha) wr.put_block_rgba({x, y}, tr); else wr.put_block_rgb({x, y}, tr); }
        if (!done) wr.put_block_a<R>({x, y}, tr, space(lum), alpha); });
    t->put(vp::Ev("put").i("x", x).i("y", y).i("w", w).i("h", h).seq("p", px).b("lum", lum).b("alpha", alpha).b("same", same).seq("px", im.dump()));
}
static void op_image(image::Writer& wr, Acc& src, Img& im)
{
    Img& s = *src.im; if (arb && (im.idx || s.lum != im.lum || s.repr != im.repr || (s.alpha && !im.alpha))) return;
    int x, y, w, h, bx, by, w2, h2; box(im, x, y, w, h, false); box(s, bx, by, w2, h2, true);
    if (rng->chance(40)) { w = w2; h = h2; if (long(x) + w > INT_MAX) x = INT_MAX - w; if (long(y) + h > INT_MAX) y = INT_MAX - h; }
    if (long(bx) + w > INT_MAX) bx = INT_MAX - w; if (long(by) + h > INT_MAX) by = INT_MAX - h;
    if (rng->chance(10)) { // of unlimited extent, but little of it is visible
        if (rng->chance(50)) { w = INT_MAX; x = -int(rng->below(3)); bx = -int(rng->below(3)); }
        else { h = INT_MAX; y = INT_MIN + 1 + int(rng->below(2)); by = INT_MIN + int(rng->below(6)); }
    }
    bool inside = bx >= 0 && by >= 0 && bx <= s.w - w && by <= s.h - h;
    bool holes = s.idx && std::any_of(s.pal.begin(), s.pal.end(), [](int) { return false; }); (void)holes;
    if (!s.alpha && g_blend && !src.bg_opaque && (!inside || s.idx)) return;    // what is meant is unclear
    t->flush(); wr.put_image_a({x, y}, *src.r, image::Box({bx, by}, image::Size(w, h)));
    t->put(vp::Ev("image").i("x", x).i("y", y).i("bx", bx).i("by", by).i("w", w).i("h", h).b("same", s.repr == im.repr).seq("px", im.dump()));
}
static void op_whole(image::Writer& wr, Acc& src, Img& im)
{
    Img& s = *src.im; if (arb && (im.idx || s.lum != im.lum || s.repr != im.repr || (s.alpha && !im.alpha))) return;
    int x, y, w, h; box(im, x, y, w, h, false); if (long(x) + s.w > INT_MAX) x = INT_MAX - s.w; if (long(y) + s.h > INT_MAX) y = INT_MAX - s.h;
    bool own = rng->chance(50), blend = own && !arb && rng->chance(50); if (!s.alpha && (own ? blend : g_blend) && s.idx) return; t->flush();
    if (own) im.img->put_image({x, y}, *s.img, blend); else wr.put_image({x, y}, *s.img);
    t->put(vp::Ev("wholeimage").i("x", x).i("y", y).b("own", own).b("blend", blend).b("same", s.repr == im.repr).seq("px", im.dump()));
}
static void op_mask(image::Writer& wr, Img& im)
{
    if (arb) return;
    int x, y, w, h; box(im, x, y, w, h, false); std::vector<int> mk; Mem<CR::int8> m(w, h, 1);
    for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) { int v = rng->chance(50) ? 255 : 0; mk.push_back(v); *m.at(i, j) = image::pack_int<image::int8_type, 8>(v); }
    t->flush(); wr.put_block_mask({x, y}, image::Tray<const image::int8_type>(m.tray()));
    t->put(vp::Ev("mask").i("x", x).i("y", y).i("w", w).i("h", h).seq("m", mk).seq("px", im.dump()));
}

// Script: [w, h, mode h, mode v]: every small block at every position around an image
static void script(const vp::J& j)
{
    gray = rng->chance(40); arb = false; common.clear(); g_op = 1; g_blend = false;
    auto im = make(int(j[0].n), int(j[1].n), rng->chance(25)); auto src = make(1, 1, false);
    t->put(vp::Ev("reset").raw("im", im->desc()).raw("src", src->desc())); image::Writer wr(*im->img); Acc a { &wr, im.get(), false };
    using M = image::Reader::FalloffMode; auto md = [](const std::string& s) { return s == "background" ? M::background : s == "edge" ? M::edge : M::repeat; };
    wr.set_falloff_mode(md(j[2].s), md(j[3].s)); t->put(vp::Ev("falloff").b("s", false).s("h", j[2].s).s("v", j[3].s));
    op_color(a);
    for (auto& b : j[4].a) { auto v = b.ints(); if (READS) read_at(a, v[0], v[1], v[2], v[3]);
        else { auto slot = rng->chance(50) ? image::Reader::ColorSlot::foreground : image::Reader::ColorSlot::background; t->flush(); wr.fill(image::Box({v[0], v[1]}, image::Size(v[2], v[3])), slot);
            t->put(vp::Ev("fill").i("x", v[0]).i("y", v[1]).i("w", v[2]).i("h", v[3]).b("fg", slot == image::Reader::ColorSlot::foreground).seq("px", im->dump())); op_color(a); } }
}
int main(int argc, char** argv)
{
    vp::Args args(argc, argv); vp::Trace tr(args.trace); vp::Rng r(args.seed); t = &tr; rng = &r;
    for (const vp::J& j : args.scripts) script(j);
    for (long e = 0; e < args.episodes; ++e) {
        gray = r.chance(45); arb = r.chance(20); common.clear(); int nc = int(r.range(0, 5)); for (int i = 0; i < nc; ++i) common.push_back(color_part());
        g_op = 1; g_blend = false;
        int w = dim(), h = dim(); if (r.chance(12)) { w = int(r.range(60, 140)); h = int(r.range(1, 3)); if (r.chance(50)) std::swap(w, h); } else if (r.chance(2)) { w = int(r.range(60, 70)); h = int(r.range(60, 70)); }
        int sw = dim(), sh = dim(); if (r.chance(8)) { sw = int(r.range(60, 70)); sh = int(r.range(1, 3)); if (r.chance(50)) std::swap(sw, sh); }
        auto im = make(w, h, r.chance(30)); auto src = make(sw, sh, r.chance(25));
        t->put(vp::Ev("reset").raw("im", im->desc()).raw("src", src->desc())); t->flush();
        image::Writer wr(*im->img); image::Reader rd(*src->img); Acc a { &wr, im.get(), false }, b { &rd, src.get(), true };
        long n = args.steps; if (w * h > 1000) n /= 3;
        for (long s = 0; s < n; ++s) {
            long k = r.below(100); Acc& c = r.chance(50) ? a : b;
            if (k < 8) op_falloff(c); else if (k < 16) op_color(c); else if (k < 20) op_getcolor(c); else if (k < 24) op_palette(c); else if (k < 27 && !arb) op_mode(wr);
            else if (k < (READS ? 85 : 38)) op_read(c);
            else { long q = r.below(100); if (q < 22) op_fill(wr, *im); else if (q < 50) op_put(wr, *im); else if (q < 72) op_image(wr, b, *im); else if (q < 82) op_whole(wr, b, *im); else op_mask(wr, *im); }
        }
    }
}
