// Driver of property I05: PNG files.
#include "common.hpp"
#include <memory>
#include <stdexcept>
#include <algorithm>
#include <system_error>
#include <filesystem>
#include <fstream>
#include <locale>
#include <unistd.h>
#include <zlib.h>
#include <archon/core/source.hpp>
#include <archon/core/sink.hpp>
#include <archon/core/misc_error.hpp>
#include <archon/image.hpp>
#include <archon/image/file_format_png.hpp>
#include <archon/image/file_format_registry.hpp>
#include <archon/image/packed_pixel_format.hpp>
#include <archon/image/subword_pixel_format.hpp>
#include <archon/image/indexed_pixel_format.hpp>
#include <archon/image/channel_packing.hpp>
using namespace archon;
using namespace archon::image;
static vp::Rng* rng; static vp::Trace* t;
static std::string dir;
using Bytes = std::string;
static constexpr auto BIG = core::Endianness::big, LIT = core::Endianness::little;

// ---- Files
struct File { long w = 1, h = 1; int d = 8, ct = 0; bool inter = false; Bytes plte, trns, data;
    std::string json() const { auto s = [](const Bytes& b) { std::string r = "["; for (std::size_t i = 0; i < b.size(); ++i) r += (i ? "," : "") + std::to_string(int(static_cast<unsigned char>(b[i]))); return r + "]"; };
        return "{\"w\":" + std::to_string(w) + ",\"h\":" + std::to_string(h) + ",\"d\":" + std::to_string(d) + ",\"ct\":" + std::to_string(ct) + ",\"inter\":" + (inter ? "true" : "false") + ",\"plte\":" + s(plte) + ",\"trns\":" + s(trns) + ",\"data\":" + s(data) + "}"; } };
static Bytes be32(unsigned long v) { Bytes b; for (int i = 3; i >= 0; --i) b += char((v >> (8 * i)) & 255); return b; }
static unsigned long rd32(const Bytes& b, std::size_t p) { unsigned long v = 0; for (std::size_t i = 0; i < 4; ++i) v = v << 8 | static_cast<unsigned char>(b[p + i]); return v; }
static unsigned long crc(const Bytes& b) { return crc32(crc32(0, nullptr, 0), reinterpret_cast<const Bytef*>(b.data()), uInt(b.size())); }
static Bytes chunk(const char* type, const Bytes& body) { Bytes b = type + body; return be32(body.size()) + b + be32(crc(b)); }
static const Bytes signature("\x89PNG\r\n\x1a\n", 8);
static Bytes deflated(const Bytes& d, int level) { uLongf n = compressBound(uLong(d.size())); Bytes r(n, 0); compress2(reinterpret_cast<Bytef*>(r.data()), &n, reinterpret_cast<const Bytef*>(d.data()), uLong(d.size()), level); r.resize(n); return r; }
struct Part { std::size_t at, size; const char* kind; };   // for damage
static Bytes build(const File& f, std::vector<Part>* parts = nullptr)
{
    Bytes r = signature; if (parts) parts->push_back({0, 8, "signature"});
    auto add = [&](const char* type, const Bytes& body, const char* kind) { Bytes c = chunk(type, body); if (parts) { parts->push_back({r.size(), 4, "length"}); parts->push_back({r.size() + 4, 4, "type"}); parts->push_back({r.size() + 8, c.size() - 8, kind}); } r += c; };
    auto extra = [&] { if (rng->chance(20)) add("tEXt", Bytes("Comment\0", 8) + Bytes(std::size_t(rng->below(40)), 'x'), "ancillary"); if (rng->chance(10)) add("prVt", Bytes(std::size_t(rng->below(9)), 'y'), "ancillary"); };
    Bytes h = be32(static_cast<unsigned long>(f.w)) + be32(static_cast<unsigned long>(f.h)); h += char(f.d); h += char(f.ct); h += char(0); h += char(0); h += char(f.inter);
    add("IHDR", h, "critical"); extra();
    if (f.ct == 3) add("PLTE", f.plte, "critical");
    if (!f.trns.empty()) add("tRNS", f.trns, "trns");
    extra();
    Bytes z = deflated(f.data, int(rng->range(0, 9))); std::size_t p = 0;
    bool split = rng->chance(50);
    do { std::size_t n = split ? std::size_t(rng->below(12)) : z.size(); n = std::min(n, z.size() - p); add("IDAT", z.substr(p, n), "critical"); p += n; } while (p < z.size());
    extra(); add("IEND", "", "critical"); return r;
}
// Whether it is a sequence of sound chunks, and what is in it
static bool parse(const Bytes& b, File& f)
{
    if (b.substr(0, 8) != signature) return false;
    std::size_t p = 8; Bytes z; bool end = false, first = true;
    while (p < b.size()) {
        if (end || b.size() - p < 12) return false;
        std::size_t n = rd32(b, p); if (b.size() - p - 12 < n) return false;
        Bytes type = b.substr(p + 4, 4), body = b.substr(p + 8, n); if (crc(type + body) != rd32(b, p + 8 + n)) return false;
        if (first != (type == "IHDR")) return false; first = false;
        if (type == "IHDR") { if (n != 13 || body[10] || body[11]) return false; f.w = long(rd32(body, 0)); f.h = long(rd32(body, 4)); f.d = body[8]; f.ct = body[9]; f.inter = body[12] != 0; }
        else if (type == "PLTE") f.plte = body; else if (type == "tRNS") f.trns = body; else if (type == "IDAT") z += body; else if (type == "IEND") end = true;
        p += 12 + n;
    }
    if (!end) return false;
    f.data.assign(4 << 20, 0); uLongf n = uLongf(f.data.size()); if (uncompress(reinterpret_cast<Bytef*>(f.data.data()), &n, reinterpret_cast<const Bytef*>(z.data()), uLong(z.size())) != Z_OK) return false;
    f.data.resize(n); return true;
}
static int samples(int ct) { return ct == 2 ? 3 : ct == 4 ? 2 : ct == 6 ? 4 : 1; }
static Bytes noise(std::size_t n, bool few) { Bytes b; for (std::size_t i = 0; i < n; ++i) b += char(few ? (rng->chance(60) ? 0 : rng->chance(50) ? 255 : 17) : rng->below(256)); return b; }
static File some_file(int max)
{
    File f; static const int kinds[] = { 1, 2, 4, 8, 16, 208, 216, 301, 302, 304, 308, 408, 416, 608, 616 };
    int k = kinds[rng->below(15)]; f.ct = k / 100; f.d = k % 100; f.inter = rng->chance(50);
    f.w = rng->range(1, max); f.h = rng->range(1, max); bool few = rng->chance(40); int fixed = rng->chance(50) ? -1 : int(rng->below(5));
    int ps[7][4] = {{0,0,8,8},{4,0,8,8},{0,4,4,8},{2,0,4,4},{0,2,2,4},{1,0,2,2},{0,1,1,2}};
    auto pass = [&](long w, long h) { if (w <= 0 || h <= 0) return; std::size_t n = std::size_t((w * f.d * samples(f.ct) + 7) / 8); for (long r = 0; r < h; ++r) { f.data += char(fixed < 0 ? rng->below(5) : fixed); f.data += noise(n, few); } };
    if (!f.inter) pass(f.w, f.h); else for (auto& p : ps) pass((f.w - p[0] + p[2] - 1) / p[2], (f.h - p[1] + p[3] - 1) / p[3]);
    if (f.ct == 3) { f.plte = noise(3u << f.d, false); if (rng->chance(50)) f.trns = noise(std::size_t(rng->range(1, 1 << f.d)), few); }
    else if (rng->chance(50) && (f.ct == 0 || f.ct == 2)) for (int i = 0; i < samples(f.ct); ++i) { int v = f.d == 16 ? (rng->chance(50) ? 0 : int(rng->below(65536))) : (few && rng->chance(70) ? (rng->chance(50) ? 0 : (1 << f.d) - 1) : int(rng->below(1 << f.d))); f.trns += char(v >> 8); f.trns += char(v & 255); }
    return f;
}

// ---- Sources, sinks, and trackers that misbehave
static const std::error_code own_error(EXDEV, std::generic_category());
struct Src : core::Source { const Bytes& b; std::size_t p = 0, fail = std::size_t(-1); bool pieces; explicit Src(const Bytes& b): b(b), pieces(rng->chance(60)) {}
    bool do_try_read_some(core::Span<char> buf, std::size_t& n, std::error_code& ec) override
    { if (p >= fail) { ec = own_error; return false; } std::size_t k = std::min({buf.size(), b.size() - p, fail - p}); if (pieces && k > 1) k = std::size_t(rng->range(1, std::min<long>(long(k), 9))); std::copy_n(b.data() + p, k, buf.data()); p += k; n = k; return true; } };
struct Snk : core::Sink { Bytes b; std::size_t fail = std::size_t(-1);
    bool do_try_write(core::Span<const char> d, std::size_t& n, std::error_code& ec) override
    { std::size_t k = std::min(d.size(), fail - std::min(fail, b.size())); b.append(d.data(), k); n = k; if (k < d.size()) { ec = own_error; return false; } return true; } };
struct Oops {};
struct Track : ProgressTracker { std::vector<std::pair<long, long>> seen; long fail = -1; const image::Image* im = nullptr;
    void progress(const image::Image& i, int c, int n) override { seen.emplace_back(c, n); im = &i; (void)i.get_size(); if (fail == 0) throw Oops(); --fail; }
    std::string json() const { std::string s = "["; for (std::size_t k = 0; k < seen.size(); ++k) s += (k ? ",[" : "[") + std::to_string(seen[k].first) + "," + std::to_string(seen[k].second) + "]"; return s + "]"; } };
static std::string name(const std::error_code& ec)
{
    if (ec == own_error) return "own";
    if (ec == core::MiscError::premature_end_of_input) return "premature end";
    if (ec == image::Error::wrong_file_format) return "wrong format";
    if (ec == image::Error::file_format_detection_failed) return "not detected";
    if (ec == image::Error::file_format_unavailable) return "unavailable";
    if (ec == image::Error::bad_file) return "bad file";
    if (ec == image::Error::image_size_out_of_range) return "size";
    if (ec == image::Error::saving_process_failed) return "saving";
    return "other";
}

// ---- Pictures
struct Pic { long w = 0, h = 0; bool lum = false, alpha = false; std::vector<int> px; bool ok = true; int depth = 0;
    bool operator==(const Pic& o) const { return w == o.w && h == o.h && lum == o.lum && alpha == o.alpha && px == o.px; }
    std::string json() const { std::string s = "{\"w\":" + std::to_string(w) + ",\"h\":" + std::to_string(h) + ",\"lum\":" + (lum ? "true" : "false") + ",\"alpha\":" + (alpha ? "true" : "false") + ",\"px\":["; for (std::size_t i = 0; i < px.size(); ++i) s += (i ? "," : "") + std::to_string(px[i]); return s + "]}"; } };
template<CompRepr R> static void read(const image::Image& im, Pic& p)
{
    using C = comp_type<R>; int n = (p.lum ? 1 : 3) + int(p.alpha); std::vector<C> v(std::size_t(p.w * p.h * n));
    image::Tray<C> tr { image::Iter<C> { v.data(), n, n * p.w }, im.get_size() }; im.read({0, 0}, tr.template cast_to<void>());
    for (C c : v) { int x; if constexpr (R == CompRepr::int8) x = int(unpack_int<8>(c)) * 257; else if constexpr (R == CompRepr::int16) x = int(unpack_int<16>(c)); else { x = c == 0 ? 0 : c == 1 ? 65535 : -1; } p.px.push_back(x); }
}
static Pic picture(const image::Image& im)
{
    Pic p; auto info = im.get_transfer_info(); p.w = im.get_size().width; p.h = im.get_size().height; p.lum = info.color_space->is_lum(); p.alpha = info.has_alpha; p.depth = info.bit_depth;
    switch (info.comp_repr) { case CompRepr::int8: read<CompRepr::int8>(im, p); break; case CompRepr::int16: read<CompRepr::int16>(im, p); break; default: read<CompRepr::float_>(im, p); } return p;
}
template<CompRepr R> static void write(WritableImage& im, bool lum, bool alpha, bool few)
{
    using C = comp_type<R>; int n = (lum ? 1 : 3) + int(alpha), w = im.get_size().width, h = im.get_size().height; std::vector<C> v(std::size_t(w * h * n));
    for (std::size_t i = 0; i < v.size(); ++i) { if constexpr (R == CompRepr::int8) v[i] = pack_int<C, 8>(few ? (rng->chance(50) ? 0 : 255) : int(rng->below(256))); else if constexpr (R == CompRepr::int16) v[i] = pack_int<C, 16>(few ? int(rng->below(2)) * 65535 : int(rng->below(65536))); else v[i] = C(rng->below(2)); }
    if constexpr (R != CompRepr::int8 && R != CompRepr::int16) if (alpha) for (std::size_t i = 0; i < v.size(); i += std::size_t(n)) if (v[i + std::size_t(n) - 1] == 0) for (int k = 0; k < n; ++k) v[i + std::size_t(k)] = 0;
    image::Tray<C> tr { image::Iter<C> { v.data(), n, n * w }, im.get_size() }; im.write({0, 0}, image::Tray<const C>(tr).template cast_to<const void>());
}
static void randomize(WritableImage& im)
{
    auto info = im.get_transfer_info(); bool lum = info.color_space->is_lum(), few = rng->chance(20);
    switch (info.comp_repr) { case CompRepr::int8: write<CompRepr::int8>(im, lum, info.has_alpha, few); break; case CompRepr::int16: write<CompRepr::int16>(im, lum, info.has_alpha, few); break; default: write<CompRepr::float_>(im, lum, info.has_alpha, few); }
}
// ---- Images of many formats
using XRGB = ChannelSpec_RGB; using XRGBA = ChannelSpec_RGBA; using XL = ChannelSpec_Lum; using XLA = ChannelSpec_LumA; using i8 = int8_type; using i16 = int16_type; using i32 = int32_type;
template<class...> struct List {};
using Formats = List<
    IntegerPixelFormat_Lum<i8>, IntegerPixelFormat_LumA<i8>, IntegerPixelFormat_RGB<i8>, IntegerPixelFormat_RGBA<i8>,
    IntegerPixelFormat_Lum<i16, 16, i16>, IntegerPixelFormat_LumA<i16, 16, i16>, IntegerPixelFormat_RGB<i16, 16, i16>, IntegerPixelFormat_RGBA<i16, 16, i16>,
    IntegerPixelFormat<XLA, i8, 8, i8, 1, BIG, true>, IntegerPixelFormat<XLA, i8, 8, i8, 1, BIG, false, true>, IntegerPixelFormat<XLA, i8, 8, i8, 1, BIG, true, true>,
    IntegerPixelFormat<XRGB, i8, 8, i8, 1, BIG, false, true>, IntegerPixelFormat<XRGB, i8, 8, i8, 1, BIG, true, false>, IntegerPixelFormat<XRGBA, i8, 8, i8, 1, BIG, true>, IntegerPixelFormat<XRGBA, i8, 8, i8, 1, LIT, false, true>, IntegerPixelFormat<XRGBA, i8, 8, i8, 1, BIG, true, true>,
    IntegerPixelFormat<XL, i8, 8, i16, 2, BIG>, IntegerPixelFormat<XL, i8, 8, i16, 2, LIT>, IntegerPixelFormat<XLA, i8, 8, i16, 2, LIT, true>, IntegerPixelFormat<XRGB, i8, 8, i16, 2, BIG, false, true>, IntegerPixelFormat<XRGB, i8, 8, i16, 2, LIT, false, true>,
    IntegerPixelFormat<XRGBA, i8, 8, i16, 2, BIG, true>, IntegerPixelFormat<XRGBA, i8, 8, i16, 2, LIT, true, true>, IntegerPixelFormat<XRGBA, i16, 16, i16, 1, BIG, true, true>, IntegerPixelFormat<XRGBA, i16, 16, i16, 1, BIG, true>,
    IntegerPixelFormat<XRGB, i16, 8, i8, 1>, IntegerPixelFormat<XRGBA, i16, 12, i16, 1, BIG, true, true>, IntegerPixelFormat<XRGB, i8, 5, i16, 3, LIT>, IntegerPixelFormat<XRGB, i8, 4, i8, 1>, IntegerPixelFormat<XL, i8, 4, i8, 1>, IntegerPixelFormat<XL, i8, 1, i8, 1>, IntegerPixelFormat<XL, i8, 1, i8, 2>,
    IntegerPixelFormat<XRGB, unsigned char, 8, unsigned char, 1>, IntegerPixelFormat<XRGBA, unsigned short, 16, unsigned short, 1>,
    PackedPixelFormat_RGB<i16, ChannelPacking_565>, PackedPixelFormat<XRGB, i32, ChannelPacking_888, i8, 8, 3, BIG>, PackedPixelFormat<XRGB, i32, ChannelPacking_888, i8, 8, 3, LIT, false, true>, PackedPixelFormat_RGBA<i16, ChannelPacking_4444>, PackedPixelFormat<XRGBA, i32, ChannelPacking_8888, i32, 32, 1, BIG, true, true>,
    SubwordPixelFormat<XL, i8, 1, 8, BIG>, SubwordPixelFormat<XL, i8, 1, 8, LIT>, SubwordPixelFormat<XL, i8, 2, 4, BIG>, SubwordPixelFormat<XL, i8, 2, 4, LIT>, SubwordPixelFormat<XL, i8, 4, 2, BIG>, SubwordPixelFormat<XL, i8, 4, 2, LIT>,
    SubwordPixelFormat<XL, i8, 1, 8, BIG, false, false, false>, SubwordPixelFormat<XL, i8, 2, 4, LIT, false, false, false>, SubwordPixelFormat<XL, i8, 4, 2, BIG, false, false, false>, SubwordPixelFormat<XL, i16, 1, 16, BIG>, SubwordPixelFormat<XL, i16, 4, 4, LIT, false, false, false>, SubwordPixelFormat<XL, i8, 2, 3, BIG>, SubwordPixelFormat<XL, i8, 1, 7, LIT>,
    SubwordPixelFormat<XL, i8, 8, 1>, SubwordPixelFormat<XLA, i8, 2, 2, LIT, true, false, false>, SubwordPixelFormat<XLA, i8, 4, 1>, SubwordPixelFormat<XRGB, i16, 2, 2, BIG, false, true>, SubwordPixelFormat<XRGBA, i8, 2, 1, BIG, true>, SubwordPixelFormat<XRGBA, i16, 2, 2, LIT, true, false, false>>;
template<class F> static std::unique_ptr<WritableImage> buffered(image::Size s) { return std::make_unique<BufferedImage<F>>(s); }
template<class... F> static std::unique_ptr<WritableImage> of(List<F...>, image::Size s) { std::unique_ptr<WritableImage> (*fs[])(image::Size) = { &buffered<F>... }; return fs[rng->below(long(sizeof...(F)))](s); }
static std::unique_ptr<WritableImage> make(image::Size s) { return of(Formats(), s); }
// Images whose pixels are elsewhere
template<CompRepr R> static std::unique_ptr<WritableImage> trayed(image::Size s, std::shared_ptr<void>& own)
{
    using C = comp_type<R>; bool lum = rng->chance(50), alpha = rng->chance(50); int n = (lum ? 1 : 3) + int(alpha); int hs = n + int(rng->below(3)), vs = hs * s.width + int(rng->below(5));
    auto v = std::make_shared<std::vector<C>>(std::size_t(vs) * std::size_t(s.height) + 8); own = v;
    return std::make_unique<WritableTrayImage<R>>(image::Tray<C> { image::Iter<C> { v->data(), hs, vs }, s }, lum ? ColorSpace::get_lum() : ColorSpace::get_rgb(), alpha);
}

// ---- Saving and loading
static std::string path() { static long n = 0; return dir + "/f" + std::to_string(n++); }
static Bytes slurp(const std::string& p) { std::ifstream in(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(in), {}); }
struct Out { bool ok = false, thrown = false, untouched = true; std::string err; std::unique_ptr<WritableImage> im; };
static const std::error_code before(EDOM, std::generic_category());
template<class F> static void guarded(Out& o, F f)
{
    std::error_code ec = before;
    try { o.ok = f(ec); o.err = o.ok ? "" : name(ec); if (o.ok && ec != before) o.err = "changed"; }
    catch (Oops&) { o.thrown = true; o.err = "thrown"; }
    catch (std::system_error& e) { o.err = name(e.code()); }
}
static std::string ext() { static const char* e[] = { ".png", "", ".dat" }; return e[rng->chance(70) ? 0 : rng->below(3)]; }
static Out load(const Bytes& b, bool named, Track* tr, std::size_t fail = std::size_t(-1))
{
    Out o; LoadConfig c; c.tracker = tr; if (named) c.file_format = "png"; const std::locale& loc = std::locale::classic();
    if (fail == std::size_t(-1) && rng->chance(30)) {
        std::string p = path() + ext(); { std::ofstream(p, std::ios::binary) << b; }
        char buf[300]; c.read_buffer_size = std::size_t(rng->chance(30) ? 0 : rng->range(1, 500)); if (rng->chance(30)) c.read_buffer = core::Span<char>(buf, std::size_t(rng->range(1, 300)));
        if (rng->chance(50)) guarded(o, [&](std::error_code& ec) { bool r = image::try_load(std::filesystem::path(p), o.im, loc, c, ec); o.untouched = !o.im; return r; });
        else guarded(o, [&](std::error_code& ec) { (void)ec; o.im = image::load(std::string_view(p), loc, c); o.untouched = !o.im; return true; });
        unlink(p.c_str());
    }
    else { Src src(b); src.fail = fail; image::Input in(src); if (rng->chance(30)) in.mime_type = rng->chance(70) ? "image/png" : "text/plain"; if (rng->chance(30)) in.filename_extension = rng->chance(70) ? ".png" : ".gif";
        guarded(o, [&](std::error_code& ec) { return image::try_load_a(in, o.im, loc, c, ec); }); o.untouched = !o.im; }
    return o;
}
static Out save(const image::Image& im, bool inter, Track* tr, Bytes& file, std::size_t fail = std::size_t(-1))
{
    Out o; SaveConfig c; c.tracker = tr; const std::locale& loc = std::locale::classic(); PNGSaveConfig pc; pc.use_adam7_interlacing = inter; FileFormat::SpecialSaveConfigRegistry reg; if (inter || rng->chance(30)) { reg.register_(pc); c.special = &reg; }
    bool named = rng->chance(40); if (named) c.file_format = "png";
    if (fail == std::size_t(-1) && rng->chance(30)) {
        std::string p = path() + (named ? ext() : ".png"); if (rng->chance(30)) { std::ofstream(p) << Bytes(std::size_t(rng->below(9000)), 'z'); }
        char buf[300]; c.write_buffer_size = std::size_t(rng->chance(30) ? 0 : rng->range(1, 500)); if (rng->chance(30)) c.write_buffer = core::Span<char>(buf, std::size_t(rng->range(1, 300)));
        if (rng->chance(50)) guarded(o, [&](std::error_code& ec) { return image::try_save(im, std::filesystem::path(p), loc, c, ec); });
        else guarded(o, [&](std::error_code& ec) { (void)ec; image::save(im, std::string_view(p), loc, c); return true; });
        file = slurp(p); unlink(p.c_str());
    }
    else { Snk snk; snk.fail = fail; image::Output out(snk); if (!named) { if (rng->chance(50)) out.mime_type = "image/png"; else out.filename_extension = ".png"; } guarded(o, [&](std::error_code& ec) { return image::try_save_a(im, out, loc, c, ec); }); file = std::move(snk.b); }
    return o;
}

// ---- Events
static void put_load(const char* e, const File& f)
{
    Bytes b = build(f); bool named = rng->chance(40), tracked = rng->chance(60); Track tr; Out o = load(b, named, tracked ? &tr : nullptr);
    t->put(vp::Ev(e).raw("f", f.json()).b("ok", o.ok).s("err", o.err).raw("pic", (o.ok ? picture(*o.im) : Pic()).json()).b("tracked", tracked).raw("prog", tr.json()));
}
static void put_save(const WritableImage& im, const Pic& p)
{
    bool inter = rng->chance(50), tracked = rng->chance(60); Track tr, tr2; Bytes b; File f; Out o = save(im, inter, tracked ? &tr : nullptr, b); bool sound = o.ok && parse(b, f);
    Out r = sound ? load(b, rng->chance(40), tracked ? &tr2 : nullptr) : Out();
    t->put(vp::Ev("save").raw("pic", p.json()).b("inter", inter).b("ok", o.ok).s("err", o.err).b("sound", sound).raw("f", f.json()).b("lok", r.ok).raw("back", (r.ok ? picture(*r.im) : Pic()).json()).b("tracked", tracked).raw("prog", tr.json()).raw("prog2", tr2.json()));
}
static std::unique_ptr<WritableImage> some_image(image::Size s, std::shared_ptr<void>& own)
{
    std::unique_ptr<WritableImage> im; if (rng->chance(80)) im = make(s); else switch (rng->below(3)) { case 0: im = trayed<CompRepr::int8>(s, own); break; case 1: im = trayed<CompRepr::int16>(s, own); break; default: im = trayed<CompRepr::float_>(s, own); }
    randomize(*im); return im;
}
static void op_save(int max) { std::shared_ptr<void> own; auto im = some_image(image::Size(int(rng->range(1, max)), int(rng->range(1, max))), own); put_save(*im, picture(*im)); }
// Indirect color
template<class P> static void indexed(int max, bool lum, bool alpha)
{
    int n = int(rng->range(1, 40)), nc = (lum ? 1 : 3) + int(alpha); using Px = Pixel<P>; std::unique_ptr<Px[]> a(new Px[std::size_t(n)]); std::vector<std::vector<int>> col;
    for (int i = 0; i < n; ++i) { std::vector<int> c; for (int k = 0; k < nc; ++k) c.push_back(k == nc - 1 && alpha ? (rng->chance(50) ? 255 : 0) : int(rng->below(256))); if (alpha && c.back() == 0) std::fill(c.begin(), c.end(), 0); for (int k = 0; k < nc; ++k) a[std::size_t(i)][k] = pack_int<i8, 8>(c[std::size_t(k)]); col.push_back(c); }
    PaletteImage<P> pal(std::move(a), std::size_t(n)); int w = int(rng->range(1, max)), h = int(rng->range(1, max)); using F = IndexedPixelFormat_8<>; BufferedImage<F> im(image::Size(w, h), F(pal));
    std::vector<i8> v; Pic p; p.w = w; p.h = h; p.lum = lum; p.alpha = alpha; for (int i = 0; i < w * h; ++i) { int c = int(rng->below(n)); v.push_back(pack_int<i8, 8>(c)); for (int x : col[std::size_t(c)]) p.px.push_back(257 * x); }
    image::Tray<i8> tr { image::Iter<i8> { v.data(), 1, w }, image::Size(w, h) }; im.write({0, 0}, image::Tray<const i8>(tr).cast_to<const void>()); put_save(im, p);
}
static void op_indexed(int max) { using T = ColorSpace::Tag; constexpr auto R = CompRepr::int8; switch (rng->below(4)) { case 0: indexed<PixelRepr<T::lum, false, R>>(max, true, false); break; case 1: indexed<PixelRepr<T::lum, true, R>>(max, true, true); break; case 2: indexed<PixelRepr<T::rgb, false, R>>(max, false, false); break; default: indexed<PixelRepr<T::rgb, true, R>>(max, false, true); } }
// Large ones: the picture is compared here
static void op_large()
{
    int w, h; switch (rng->below(4)) { case 0: w = int(rng->range(4000, 4200)); h = int(rng->range(1, 4)); break; case 1: w = int(rng->range(30, 80)); h = 4096 / w * int(rng->range(1, 3)) + int(rng->range(-1, 1)); break; case 2: w = 1; h = int(rng->range(4090, 4110)); break; default: w = int(rng->range(1000, 2100)); h = int(rng->range(1, 12)); }
    std::shared_ptr<void> own; auto im = some_image(image::Size(w, h), own); Pic p = picture(*im); bool inter = rng->chance(30); Track tr, tr2; Bytes b; Out o = save(*im, inter, &tr, b); Out r = load(b, false, &tr2);
    t->put(vp::Ev("large").i("w", w).i("h", h).b("ok", o.ok && r.ok).b("same", r.ok && picture(*r.im) == p).raw("prog", tr.json()).raw("prog2", tr2.json()));
}
// Damage
static std::string diag(const Out& o, const Pic& good) { return o.thrown ? "thrown" : o.ok ? (picture(*o.im) == good ? "same" : "other") : "failed"; }
static void op_damage()
{
    File f = some_file(9); std::vector<Part> parts; Bytes b = build(f, &parts); Out g = load(b, true, nullptr); if (!g.ok) { t->put(vp::Ev("damage").s("what", "none").i("n", 0).i("size", long(b.size())).b("named", true).s("res", "failed").s("err", g.err).b("untouched", g.untouched)); return; }
    Pic good = picture(*g.im); bool named = rng->chance(50); Track tr, *trp = rng->chance(40) ? &tr : nullptr;
    auto put = [&](const std::string& what, long n, const Out& o) { t->put(vp::Ev("damage").s("what", what).i("n", n).i("size", long(b.size())).b("named", named).s("res", diag(o, good)).s("err", o.err).b("untouched", o.untouched)); };
    switch (rng->below(5)) {
        case 0: { long n = rng->chance(30) ? rng->range(0, 12) : rng->chance(30) ? long(b.size()) - rng->range(1, 14) : rng->below(long(b.size())); put("cut", n, load(b.substr(0, std::size_t(n)), named, trp)); break; }
        case 1: { long n = rng->chance(30) ? rng->range(0, 12) : rng->below(long(b.size())); put("source", n, load(b, named, trp, std::size_t(n))); break; }
        case 2: case 3: { const Part& p = parts[std::size_t(rng->below(long(parts.size())))]; std::size_t at = p.at + std::size_t(rng->below(long(p.size))); Bytes d = b; d[at] = char(d[at] ^ (1 << rng->below(8))); if (rng->chance(30)) d[at] = char(b[at] + 1 + rng->below(255)); put(p.kind, long(at), load(d, named, trp)); break; }
        case 4: { tr.fail = rng->below(8); Out o = load(b, named, &tr); put(o.thrown ? "tracker" : "none", long(tr.seen.size()), o); break; }
    }
}
static void op_savefail()
{
    std::shared_ptr<void> own; auto im = some_image(image::Size(int(rng->range(1, 12)), int(rng->range(1, 12))), own); bool inter = rng->chance(50); Bytes b; Out g = save(*im, inter, nullptr, b); long size = long(b.size());
    if (rng->chance(60)) { long n = rng->below(size); Bytes c; Out o = save(*im, inter, nullptr, c, std::size_t(n)); t->put(vp::Ev("savefail").s("what", "sink").i("n", n).i("size", size).b("ok", o.ok).s("err", o.err).b("prefix", c == b.substr(0, std::size_t(n)))); }
    else { Track tr; tr.fail = rng->below(inter ? 7 : 1); Bytes c; Out o = save(*im, inter, &tr, c); t->put(vp::Ev("savefail").s("what", "tracker").i("n", long(tr.seen.size())).i("size", size).b("ok", o.ok).s("err", o.err).b("prefix", true)); }
}
static void op_empty()
{
    int w = rng->chance(50) ? 0 : int(rng->below(3)), h = w > 0 ? 0 : int(rng->below(3)); auto im = make(image::Size(w, h)); Bytes b; Out o = save(*im, false, nullptr, b);
    t->put(vp::Ev("empty").i("w", w).i("h", h).b("ok", o.ok).s("err", o.err));
}
static File from(const vp::J& j) { File f; f.w = j["w"].n; f.h = j["h"].n; f.d = int(j["d"].n); f.ct = int(j["ct"].n); f.inter = j["inter"].b; for (int x : j["plte"].ints()) f.plte += char(x); for (int x : j["trns"].ints()) f.trns += char(x); for (int x : j["data"].ints()) f.data += char(x); return f; }
int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Rng r(a.seed); rng = &r; vp::Trace tr(a.trace); t = &tr;
    char tmp[] = "/tmp/vp-i05-XXXXXX"; if (!mkdtemp(tmp)) return 3; dir = tmp;
    for (auto& j : a.scripts) put_load("load", from(j));
    for (long e = 0; e < a.episodes; ++e) for (long s = 0; s < a.steps; ++s) {
        long k = rng->below(100); int max = rng->chance(70) ? 9 : rng->chance(90) ? 18 : 34;
        if (k < 34) put_load("load", some_file(max)); else if (k < 60) op_save(max); else if (k < 66) op_indexed(max); else if (k < 69) op_large(); else if (k < 89) op_damage(); else if (k < 98) op_savefail(); else op_empty();
    }
    std::error_code ec; std::filesystem::remove_all(dir, ec);
}
