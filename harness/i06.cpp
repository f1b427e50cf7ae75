// Driver of property I06: image file formats are found as documented.
#include "common.hpp"
#include "i06.hpp"
#include <stdexcept>
#include <filesystem>
#include <fstream>
#include <locale>
#include <deque>
#include <unistd.h>
#include <archon/core/buffer.hpp>
#include <archon/core/rewindable_source.hpp>
static vp::Rng* rng; static vp::Trace* t; static std::string dir;
static const std::error_code own_error(EXDEV, std::generic_category()), before(EDOM, std::generic_category());
struct Src : core::Source { std::string b; std::size_t p = 0, fail = std::size_t(-1); bool pieces; explicit Src(std::string s): b(std::move(s)), pieces(rng->chance(60)) {}
    bool do_try_read_some(core::Span<char> buf, std::size_t& n, std::error_code& ec) override
    { if (p >= fail) { fail = std::size_t(-1); ec = own_error; return false; } std::size_t k = std::min({buf.size(), b.size() - p, fail - p}); if (pieces && k > 1) k = std::size_t(rng->range(1, std::min<long>(long(k), 9))); std::copy_n(b.data() + p, k, buf.data()); p += k; n = k; return true; } };
struct Snk : core::Sink { std::string b; bool do_try_write(core::Span<const char> d, std::size_t& n, std::error_code&) override { b.append(d.data(), d.size()); n = d.size(); return true; } };
static std::string name(const std::error_code& ec)
{
    if (ec == own_error) return "own"; if (ec == image::Error::wrong_file_format) return "wrong format"; if (ec == image::Error::file_format_detection_failed) return "not detected"; if (ec == image::Error::file_format_unavailable) return "unavailable"; return "other";
}
static const std::vector<std::string> mimes = { "a/x", "a/y", "image/png", "a/xx", "A/x" }, exts = { ".p", ".q", ".png", ".pp", ".P" }, ids = { "i", "j", "k", "png", "ij", "m", "n" };
static std::string some_content() { std::string b; long n = rng->chance(20) ? rng->below(3) : rng->chance(90) ? rng->range(1, 30) : rng->range(200, 600); for (long i = 0; i < n; ++i) b += char(rng->range(1, i < 3 ? 2 : 9)); return b; }
struct World { image::FileFormatRegistry reg; std::deque<Fake> fakes; };
static std::unique_ptr<World> w;
static std::string tojson(const std::vector<std::string>& v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); ++i) { if (i) s += ","; vp::json_str(s, v[i]); } return s + "]"; }
static std::string bytes(const std::string& b) { std::string s = "["; for (std::size_t i = 0; i < b.size(); ++i) s += (i ? "," : "") + std::to_string(int(static_cast<unsigned char>(b[i]))); return s + "]"; }
static void fresh() { w = std::make_unique<World>(); t->put(vp::Ev("registry")); }
static void enter(Fake& f)
{
    bool ok = false; try { w->reg.register_file_format(f); ok = true; } catch (std::invalid_argument&) {}
    std::string s = "{\"id\":\"" + f.id + "\",\"mimes\":" + tojson(f.mimes) + ",\"exts\":" + tojson(f.exts) + ",\"magic\":" + bytes(f.magic) + "}";
    t->put(vp::Ev("register").raw("f", s).b("ok", ok).i("n", w->reg.get_num_file_formats()));
}
static Fake& add() { w->fakes.emplace_back(); Fake& f = w->fakes.back(); f.greed = std::size_t(rng->chance(20) ? rng->below(rng->chance(80) ? 20 : 400) : 0); f.by_some = rng->chance(40); return f; }
static void op_register()
{
    if (!w->fakes.empty() && rng->chance(8)) { enter(w->fakes[std::size_t(rng->below(long(w->fakes.size())))]); return; }
    Fake& f = add(); f.id = rng->pick(ids); for (auto& m : mimes) if (rng->chance(35)) f.mimes.push_back(m); for (auto& x : exts) if (rng->chance(35)) f.exts.push_back(x); if (rng->chance(50)) { std::reverse(f.mimes.begin(), f.mimes.end()); std::reverse(f.exts.begin(), f.exts.end()); }
    long n = rng->below(4); for (long i = 0; i < n; ++i) f.magic += char(rng->range(1, 2)); f.done(); enter(f);
}
static std::string ident(const image::FileFormat* f) { return f ? std::string(f->get_ident()) : std::string(); }
static void op_lookup()
{
    std::string id = rng->pick(ids), m = rng->pick(mimes), x = rng->pick(exts); auto& g = w->reg; std::vector<std::string> ml, xl, all; using T = image::FileFormatRegistry::tray_type;
    core::ArraySeededBuffer<const image::FileFormat*, 2> b1, b2; T t1(b1), t2(b2); g.lookup_by_mime_type(m, t1); for (auto* f : t1) ml.push_back(ident(f)); g.lookup_by_extension(x, t2); for (auto* f : t2) xl.push_back(ident(f));
    for (int i = 0; i < g.get_num_file_formats(); ++i) all.push_back(ident(&g.get_file_format(i)));
    bool out = false; try { (void)g.get_file_format(rng->chance(50) ? -1 : g.get_num_file_formats()); } catch (std::out_of_range&) { out = true; }
    t->put(vp::Ev("lookup").s("id", id).s("mime", m).s("ext", x).s("byid", ident(g.lookup(id))).s("m1", ident(g.lookup_by_mime_type(m))).s("x1", ident(g.lookup_by_extension(x))).strs("ml", ml).strs("xl", xl).strs("all", all).b("out", out));
}
static void do_load(std::string named, std::string mime, std::string ext, std::string b)
{
    Fake::asked.clear(); Fake::used.clear(); Fake::got.clear(); Fake::special = 0; std::unique_ptr<image::WritableImage> im; std::error_code ec = before; bool ok = false; image::LoadConfig c; c.registry = &w->reg; c.file_format = named; const std::locale& loc = std::locale::classic();
    Special<1> s1; Special<2> s2; image::FileFormat::SpecialLoadConfigRegistry sr; int want = 0; if (rng->chance(40)) { if (rng->chance(70)) { s1.value = int(rng->range(1, 9)); want += s1.value; sr.register_(s1); } if (rng->chance(50)) { s2.value = int(rng->range(1, 9)); want += 100 * s2.value; sr.register_(s2); } c.special = &sr; }
    if (rng->chance(25)) { mime.clear(); std::string p = dir + "/f" + ext; { std::ofstream(p, std::ios::binary) << b; } c.read_buffer_size = std::size_t(rng->chance(30) ? 0 : rng->range(1, 500)); ok = image::try_load(std::filesystem::path(p), im, loc, c, ec); unlink(p.c_str()); }
    else { Src src(b); image::Input in(src); in.mime_type = mime; in.filename_extension = ext; ok = image::try_load_a(in, im, loc, c, ec); }
    t->put(vp::Ev("load").s("named", named).s("mime", mime).s("ext", ext).raw("bytes", bytes(b)).b("ok", ok).s("err", ok ? (ec == before ? "" : "changed") : name(ec)).b("image", bool(im)).strs("asked", Fake::asked).s("used", Fake::used).raw("got", bytes(Fake::got)).i("want", Fake::used.empty() ? 0 : want).i("special", Fake::special));
}
static void do_save(std::string named, std::string mime, std::string ext)
{
    Fake::used.clear(); Fake::special = 0; std::error_code ec = before; image::SaveConfig c; c.registry = &w->reg; c.file_format = named; const std::locale& loc = std::locale::classic(); bool ok; std::string written;
    SpecialSave<1> s1; SpecialSave<2> s2; image::FileFormat::SpecialSaveConfigRegistry sr; int want = 0; if (rng->chance(40)) { if (rng->chance(70)) { s1.value = int(rng->range(1, 9)); want += s1.value; sr.register_(s1); } if (rng->chance(50)) { s2.value = int(rng->range(1, 9)); want += 100 * s2.value; sr.register_(s2); } c.special = &sr; }
    image::BufferedImage<image::IntegerPixelFormat_Lum<image::int8_type>> im(image::Size(1, 1)); bool old = false;
    if (rng->chance(25)) { mime.clear(); std::string p = dir + "/g" + ext; old = rng->chance(50); if (old) std::ofstream(p) << "old contents"; c.write_buffer_size = std::size_t(rng->chance(30) ? 0 : rng->range(1, 500)); ok = image::try_save(im, std::filesystem::path(p), loc, c, ec); std::ifstream in(p); written.assign(std::istreambuf_iterator<char>(in), {}); if (!ok && old && written == "old contents") written.clear(); unlink(p.c_str()); }
    else { Snk snk; image::Output out(snk); out.mime_type = mime; out.filename_extension = ext; ok = image::try_save_a(im, out, loc, c, ec); written = snk.b; }
    t->put(vp::Ev("save").s("named", named).s("mime", mime).s("ext", ext).b("ok", ok).s("err", ok ? (ec == before ? "" : "changed") : name(ec)).s("used", Fake::used).s("written", written).i("want", Fake::used.empty() ? 0 : want).i("special", Fake::special));
}
static std::string maybe(const std::vector<std::string>& v) { return rng->chance(40) ? "" : rng->chance(85) ? rng->pick(v) : "zz"; }
static void op_load() { std::string x = maybe(exts); if (x == "zz") x = ".zz"; do_load(rng->chance(25) ? rng->pick(ids) : "", maybe(mimes), x, some_content()); }
static void op_save() { std::string x = maybe(exts); if (x == "zz") x = ".zz"; do_save(rng->chance(25) ? rng->pick(ids) : "", maybe(mimes), x); }
static void script(const vp::J& j)
{
    fresh(); for (auto& g : j["reg"].a) { Fake& f = add(); f.id = g["id"].s; for (auto& m : g["mimes"].a) f.mimes.push_back(m.s); for (auto& x : g["exts"].a) f.exts.push_back(x.s); for (int c : g["magic"].ints()) f.magic += char(c); f.done(); enter(f); }
    const vp::J& a = j["ask"]; std::string b; for (int c : a["bytes"].ints()) b += char(c);
    do_load(a["named"].s, a["mime"].s, a["ext"].s, b); do_save(a["named"].s, a["mime"].s, a["ext"].s);
}
// Sources that can be rewound
static void rewinding(long steps)
{
    Src src(some_content()); if (rng->chance(30)) src.fail = std::size_t(rng->below(long(src.b.size()) + 1)); bool failing = src.fail != std::size_t(-1);
    core::ArraySeededBuffer<char, 4> small; core::Buffer<char> large(rng->chance(50) ? 0 : 256); core::Buffer<char>& buf = rng->chance(50) ? static_cast<core::Buffer<char>&>(small) : large;
    core::RewindableSource r(src, buf); t->put(vp::Ev("rnew").raw("bytes", bytes(src.b)).b("failing", failing)); bool released = false;
    for (long s = 0; s < steps; ++s) {
        long k = rng->below(100);
        if (k < 75) { std::size_t n = std::size_t(rng->chance(80) ? rng->below(12) : rng->below(300)), got = 77; std::string b(n, '?'); std::error_code ec = before; bool some = rng->chance(50); bool ok = some ? r.try_read_some(core::Span<char>(b.data(), n), got, ec) : r.try_read(core::Span<char>(b.data(), n), got, ec);
            bool sane = ok ? ec == before : ec == own_error && (!some || got == 77); if (!ok && some) got = 0; if (got > n) { sane = false; got = 0; } b.resize(got); t->put(vp::Ev("rread").b("some", some).i("n", long(n)).b("ok", ok).raw("got", bytes(b)).b("sane", sane)); }
        else if (k < 95) { if (!released) { r.rewind(); t->put(vp::Ev("rrewind")); } }
        else { r.release(); released = true; t->put(vp::Ev("rrelease")); }
    }
}
// Objects by type
static void typed(long steps)
{
    Types r; std::deque<Kind<1>> k1; std::deque<Kind<2>> k2; std::deque<Kind<3>> k3; std::deque<Thing> k4; int n = 0; t->put(vp::Ev("tnew"));
    for (long s = 0; s < steps; ++s) {
        int k = int(rng->range(1, 4));
        if (rng->chance(40)) { Thing* p = nullptr; int as = k; switch (k) { case 1: k1.emplace_back(); p = &k1.back(); break; case 2: k2.emplace_back(); p = &k2.back(); break; case 3: k3.emplace_back(); p = &k3.back(); break; default: k4.emplace_back(); p = &k4.back(); } p->n = ++n; if (rng->chance(20)) as = 4;
            if (rng->chance(50)) enter_here(r, *p, as); else switch (as) { case 1: r.register_(k1.back()); break; case 2: r.register_<Kind<2>>(k2.back()); break; case 3: r.register_(k3.back()); break; default: r.register_<Thing>(*p); }
            t->put(vp::Ev("tput").i("k", as).i("n", n)); }
        else { int v = 0; if (rng->chance(50)) v = find(r, k); else { const Thing* p = nullptr; switch (k) { case 1: p = r.get<Kind<1>>(); break; case 2: p = r.get<const Kind<2>>(); break; case 3: p = r.get<Kind<3>>(); break; default: p = r.get<const Thing>(); } v = p ? p->n : 0; } t->put(vp::Ev("tget").i("k", k).i("v", v)); }
    }
}
int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Rng r(a.seed); rng = &r; vp::Trace tr(a.trace); t = &tr;
    char tmp[] = "/tmp/vp-i06-XXXXXX"; if (!mkdtemp(tmp)) return 3; dir = tmp;
    for (auto& j : a.scripts) script(j);
    for (long e = 0; e < a.episodes; ++e) {
        if (rng->chance(20)) { rewinding(a.steps / 2); continue; }
        if (rng->chance(15)) { typed(a.steps / 2); continue; }
        fresh(); for (long s = 0; s < a.steps; ++s) { long k = rng->below(100); if (k < (s < 6 ? 60 : 10)) op_register(); else if (k < 25) op_lookup(); else if (k < 75) op_load(); else op_save(); }
    }
    std::error_code ec; std::filesystem::remove_all(dir, ec);
}
