#include "common.hpp"
#include <memory>
#include <locale>
#include <unistd.h>
#include <archon/core/file.hpp>
#include <archon/core/text_file.hpp>
#include <archon/core/buffered_text_file.hpp>
#include <archon/core/text_file_stream.hpp>
using namespace archon;

// Exchanges with the system may be short, or interrupted, which must not show
#include <cerrno>
static bool active = false; static vp::Rng* grng = nullptr; static int p_short = 0, p_intr = 0;
extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_read(int fd, void* p, size_t n)
{
    if (active && grng->chance(std::uint32_t(p_intr))) { errno = EINTR; return -1; }
    if (active && n > 1 && grng->chance(std::uint32_t(p_short))) n = std::size_t(grng->range(1, long(n) - 1));
    return __real_read(fd, p, n);
}
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
    if (active && grng->chance(std::uint32_t(p_intr))) { errno = EINTR; return -1; }
    if (active && n > 1 && grng->chance(std::uint32_t(p_short))) n = std::size_t(grng->range(1, long(n) - 1));
    return __real_write(fd, p, n);
}
}
template<class F> bool tried(F f) { try { f(); return true; } catch (std::system_error& e) { if (!e.code()) std::abort(); return false; } }

using Text = std::vector<long>;
struct Res { Text r; int ok = 2; bool found = false; long n = -1; bool some = false, thr = false; };
struct Setup { bool wide, nl, dyn, buf, stream; int line = 0; };
using Mode = core::File::Mode;

// What is done to a text file, whatever its type
struct Sut {
    virtual ~Sut() = default;
    virtual bool open(const std::string& path, Mode) = 0;
    virtual void close() = 0;
    virtual Res read(long n) = 0;
    virtual Res read_some(long n) { return read(n); }
    virtual bool has_some() const { return true; }
    virtual Res read_all() = 0;
    virtual bool has_line() const { return false; }
    virtual Res read_line() { return {}; }
    virtual bool has_peek() const { return false; }
    virtual Res peek() { return {}; }
    virtual Res write(const Text&, bool line) = 0;
    virtual bool flush() = 0;
    virtual bool tell(long& p) = 0;              // remembers the position
    virtual bool seek_told(std::size_t i) = 0;
    virtual bool seek_to(long p) = 0;
    virtual void unshift() {}
    std::vector<long> told;
};

template<class C> Text text(const C* p, std::size_t n) { Text t; for (std::size_t i = 0; i < n; ++i) t.push_back(long(std::make_unsigned_t<C>(p[i]))); return t; }
template<class C> std::basic_string<C> str(const Text& t) { std::basic_string<C> s; for (long c : t) s += C(c); return s; }

template<class C> struct Mem { char a[8], b[8]; C c[8]; };
template<class I, class Conf, class C> void configure(Conf& c, Mem<C>& m, vp::Rng& r, bool buffered)
{
    auto prim = [&](auto& p) {
        p.newline_codec_buffer_size = std::size_t(r.range(0, 7)); if (r.chance(40)) p.newline_codec_buffer_memory = core::Span<char>(m.a, std::size_t(r.range(0, 8)));
        p.char_codec_buffer_size = std::size_t(r.range(0, 7)); if (r.chance(40)) p.char_codec_buffer_memory = core::Span<char>(m.b, std::size_t(r.range(0, 8)));
    };
    if constexpr (I::is_buffered) { c.buffer_size = std::size_t(r.range(0, 6)); if (r.chance(40)) c.buffer_memory = core::Span<C>(m.c, std::size_t(r.range(0, 8))); prim(c.subimpl); }
    else prim(c);
}

template<class F> struct FileSut: Sut {
    using C = typename F::char_type; using I = typename F::impl_type; using P = typename F::pos_type;
    Mem<C> mem; std::unique_ptr<F> f; std::vector<P> pos; vp::Rng& r; bool dyn; core::Buffer<C> kept;
    static typename F::Config config(Mem<C>& m, vp::Rng& r, bool dyn) { typename F::Config c; c.dynamic_eof = dyn; configure<I>(c.impl, m, r, I::is_buffered); return c; }
    FileSut(vp::Rng& r, bool dyn): r(r), dyn(dyn) { f = std::make_unique<F>(std::locale("C.UTF-8"), config(mem, r, dyn)); }
    bool open(const std::string& path, Mode m) override
    {
        pos.clear(); told.clear(); std::error_code ec;
        if (!dyn && !f->is_open() && r.chance(10)) return tried([&] {
            if (m == Mode::read && r.chance(50)) f = std::make_unique<F>(std::filesystem::path(path), std::locale("C.UTF-8"));
            else f = std::make_unique<F>(std::filesystem::path(path), m, std::locale("C.UTF-8"));
        });
        if (!active) return f->try_open(std::filesystem::path(path), m, ec);
        if (r.chance(15)) return tried([&] { f->open(std::filesystem::path(path), m); }) && f->is_open();
        if (r.chance(15)) return tried([&] { using A = core::File::AccessMode; using K = core::File::CreateMode; using W = core::File::WriteMode;
            f->open(std::filesystem::path(path), m == Mode::read ? A::read_only : A::read_write, m == Mode::write || m == Mode::append ? K::allow : K::never, m == Mode::write ? W::trunc : m == Mode::append ? W::append : W::normal); }) && *f;
        if (r.chance(20)) { core::File file; if (!file.try_open(std::filesystem::path(path), m, ec)) return false; f->open(std::move(file)); return true; }
        return f->try_open(std::filesystem::path(path), m, ec);
    }
    void close() override { f->close(); }
    Res read(long n) override { std::vector<C> b(std::size_t(n) + 1); std::size_t k = 0; std::error_code ec; Res x; if (r.chance(25)) { x.ok = tried([&] { k = f->read(core::Span<C>(b.data(), std::size_t(n))); }); x.thr = !x.ok; x.r = text(b.data(), k); return x; } x.ok = f->try_read({ b.data(), std::size_t(n) }, k, ec); x.r = text(b.data(), k); return x; }
    Res read_some(long n) override { std::vector<C> b(std::size_t(n) + 1); std::size_t k = 0; std::error_code ec; Res x; if (r.chance(25)) { x.ok = tried([&] { k = f->read_some(core::Span<C>(b.data(), std::size_t(n))); }); x.r = text(b.data(), k); return x; } x.ok = f->try_read_some({ b.data(), std::size_t(n) }, k, ec); if (x.ok) x.r = text(b.data(), k); return x; }
    Res read_all() override { core::Buffer<C> b; std::size_t off = 0; std::error_code ec; Res x; if (r.chance(40)) { std::basic_string<C> u; x.ok = tried([&] { u = f->read_all(); }); x.thr = !x.ok; x.r = text(u.data(), u.size()); return x; } x.ok = f->try_read_all(b, off, ec); x.r = text(b.data(), off); return x; }
    bool has_line() const override { return I::is_buffered; }
    Res read_line() override
    {
        Res x;
        if constexpr (I::is_buffered) { core::Buffer<C> fresh; core::Buffer<C>& b = r.chance(50) ? fresh : kept; std::basic_string_view<C> line; bool found = false; std::error_code ec;
            if (r.chance(35)) x.ok = tried([&] { found = f->read_line(b, line); }); else x.ok = f->try_read_line(b, line, found, ec);
            if (x.ok) { x.found = found; if (found) x.r = text(line.data(), line.size()); } }
        return x;
    }
    Res write(const Text& t, bool line) override
    {
        auto s = str<C>(t); Res x; std::size_t n = 0; std::error_code ec;
        if constexpr (I::is_buffered) if (line) { s.pop_back(); x.ok = r.chance(35) ? tried([&] { f->write_line(s); }) : f->try_write_line(s, ec); if (x.ok) x.n = long(t.size()); return x; }
        if (r.chance(25)) { x.ok = tried([&] { f->write(s); }); x.n = x.ok ? long(t.size()) : -1; x.thr = !x.ok; return x; }
        x.ok = f->try_write(s, n, ec); x.n = long(n); return x;
    }
    bool flush() override { std::error_code ec; if (r.chance(25)) return tried([&] { f->flush(); }); return f->try_flush(ec); }
    void unshift() override { std::error_code ec; if (r.chance(25)) { tried([&] { f->unshift(); }); return; } static_cast<void>(f->try_unshift(ec)); }
    bool tell(long& p) override { P q; std::error_code ec; if (r.chance(25)) { if (!tried([&] { q = f->tell(); })) return false; } else if (!f->try_tell(q, ec)) return false; p = long(std::streamoff(q)); pos.push_back(q); told.push_back(p); return true; }
    bool seek_told(std::size_t i) override { std::error_code ec; if (r.chance(25)) return tried([&] { f->seek(pos[i]); }); return f->try_seek(pos[i], ec); }
    bool seek_to(long p) override { std::error_code ec; if (r.chance(25)) return tried([&] { f->seek(P(std::streamoff(p))); }); return f->try_seek(P(std::streamoff(p)), ec); }
};

template<class S> struct StreamSut: Sut {
    using I = typename S::impl_type; using C = typename I::char_type; using T = typename I::traits_type; using P = typename I::pos_type;
    using Conf = typename core::GenericTextFileStreambuf<I>::Config;
    Mem<C> mem; C own[8]; std::unique_ptr<S> s; core::File file; std::vector<P> pos; vp::Rng& r;
    StreamSut(vp::Rng& r): r(r) {}
    bool open(const std::string& path, Mode m) override
    {
        pos.clear(); told.clear();
        Conf c; c.buffer_size = std::size_t(r.range(0, 6)); if (r.chance(40)) c.buffer_memory = core::Span<C>(own, std::size_t(r.range(0, 8))); configure<I>(c.impl, mem, r, false);
        std::error_code ec; core::File g; if (!g.try_open(std::filesystem::path(path), m, ec)) return false;
        switch (r.below(3)) { case 0: s = std::make_unique<S>(std::filesystem::path(path), m, c); break; case 1: s = std::make_unique<S>(std::move(g), c); break; default: file = std::move(g); s = std::make_unique<S>(&file, c); }
        return true;
    }
    void close() override { s.reset(); file.close(); }
    Res read(long n) override
    {
        Res x; s->clear();
        if (n == 1 && r.chance(50)) { auto c = s->get(); if (!T::eq_int_type(c, T::eof())) x.r = { long(std::make_unsigned_t<C>(T::to_char_type(c))) }; s->clear(); return x; }
        std::vector<C> b(std::size_t(n) + 1);
        if (r.chance(60)) { s->read(b.data(), n); x.r = text(b.data(), std::size_t(s->gcount())); }
        else { long k = 0; while (k < n) { auto c = s->get(); if (T::eq_int_type(c, T::eof())) break; b[std::size_t(k++)] = T::to_char_type(c); } x.r = text(b.data(), std::size_t(k)); if (n == 0) x.some = true; }
        if (x.r.size() < std::size_t(n) && s->good()) x.found = true;
        s->clear(); return x;
    }
    bool has_some() const override { return false; }
    bool has_peek() const override { return true; }
    Res peek() override { Res x; s->clear(); auto c = s->peek(); if (!T::eq_int_type(c, T::eof())) x.r = { long(std::make_unsigned_t<C>(T::to_char_type(c))) }; s->clear(); return x; }
    Res read_all() override { Res x; s->clear(); std::basic_string<C> t; for (;;) { auto c = s->get(); if (T::eq_int_type(c, T::eof())) break; t += T::to_char_type(c); } x.r = text(t.data(), t.size()); s->clear(); return x; }
    bool has_line() const override { return true; }
    Res read_line() override { Res x; s->clear(); std::basic_string<C> t; x.found = bool(std::getline(*s, t, C('\n'))); if (x.found) x.r = text(t.data(), t.size()); s->clear(); return x; }
    Res write(const Text& t, bool) override
    {
        auto u = str<C>(t); Res x; s->clear(); 
        if (r.chance(40)) { for (C c : u) if (!s->put(c)) break; } else s->write(u.data(), std::streamsize(u.size()));
        x.ok = s->good(); if (x.ok) x.n = long(t.size()); s->clear(); return x;
    }
    bool flush() override { s->clear(); s->flush(); bool ok = s->good(); s->clear(); return ok; }
    bool tell(long& p) override { s->clear(); P q = r.chance(50) ? s->tellg() : s->tellp(); s->clear(); if (q == P(-1)) return false; p = long(std::streamoff(q)); pos.push_back(q); told.push_back(p); return true; }
    bool seek(P q) { s->clear(); if (r.chance(50)) s->seekg(q); else s->seekp(q); bool ok = s->good(); s->clear(); return ok; }
    bool seek_told(std::size_t i) override { return seek(pos[i]); }
    bool seek_to(long p) override { return seek(P(std::streamoff(p))); }
};

struct Run {
    vp::Trace& t; vp::Rng& r; std::string path;
    std::unique_ptr<Sut> s; Setup set; bool open = false, app = false, ro = false, dirty = false, broken = false, ascii = false;

    std::string disk() { std::ifstream in(path, std::ios::binary); return std::string(std::istreambuf_iterator<char>(in), {}); }
    void put(vp::Ev& ev) { t.put(ev.chars("d", disk())); }
    static Text bytes(const std::string& d) { Text v; for (unsigned char c : d) v.push_back(c); return v; }

    void begin(const std::string& contents)
    {
        active = true; grng = &r; p_short = r.chance(50) ? 0 : r.chance(50) ? 30 : 80; p_intr = r.chance(60) ? 0 : 15;
        { std::ofstream out(path, std::ios::binary | std::ios::trunc); out << contents; }
        int k = int(r.below(12)); bool dyn = r.chance(25);
        set = Setup { false, false, dyn, false, false };
        auto wide = [&] { set.wide = true; }; auto nl = [&] { set.nl = true; }; auto buf = [&] { set.buf = true; }; auto stream = [&] { set.stream = true; set.buf = true; set.dyn = dyn = false; };
        switch (k) {
        case 0: s = std::make_unique<FileSut<core::PosixTextFile>>(r, dyn); break;
        case 1: nl(); s = std::make_unique<FileSut<core::WindowsTextFile>>(r, dyn); break;
        case 2: wide(); s = std::make_unique<FileSut<core::WidePosixTextFile>>(r, dyn); break;
        case 3: wide(); nl(); s = std::make_unique<FileSut<core::WideWindowsTextFile>>(r, dyn); break;
        case 4: buf(); s = std::make_unique<FileSut<core::BufferedPosixTextFile>>(r, dyn); break;
        case 5: buf(); nl(); s = std::make_unique<FileSut<core::BufferedWindowsTextFile>>(r, dyn); break;
        case 6: buf(); wide(); s = std::make_unique<FileSut<core::WideBufferedPosixTextFile>>(r, dyn); break;
        case 7: buf(); wide(); nl(); s = std::make_unique<FileSut<core::WideBufferedWindowsTextFile>>(r, dyn); break;
        case 8: stream(); s = std::make_unique<StreamSut<core::PosixTextFileStream>>(r); break;
        case 9: stream(); nl(); s = std::make_unique<StreamSut<core::WindowsTextFileStream>>(r); break;
        case 10: stream(); wide(); s = std::make_unique<StreamSut<core::WidePosixTextFileStream>>(r); break;
        case 11: stream(); wide(); nl(); s = std::make_unique<StreamSut<core::WideWindowsTextFileStream>>(r); break;
        }
        open = app = ro = dirty = broken = false;
        vp::Ev ev("reset"); ev.b("wide", set.wide).b("nl", set.nl).b("dyn", set.dyn).b("buf", set.buf).i("k", k); put(ev);
    }
    void do_open(Mode m)
    {
        if (!s->open(path, m)) { std::fprintf(stderr, "cannot open\n"); std::exit(3); }
        open = true; app = m == Mode::append; ro = m == Mode::read; dirty = broken = false;
        vp::Ev ev("open"); ev.b("trunc", m == Mode::write).b("app", app); put(ev);
    }
    void do_close() { s->close(); open = false; vp::Ev ev("close"); put(ev); }
    void reads(const char* name, Res x, long n) { vp::Ev ev(name); ev.i("n", n).seq("r", x.r).i("ok", set.stream ? 2 : x.ok).b("thr", x.thr); if (!broken) dirty = false; put(ev); }
    void read(long n) { if (set.stream && n == 0) n = 1; reads("read", s->read(n), n); }
    void write(const Text& v, bool line)
    {
        Res x = s->write(v, line); vp::Ev ev("write"); ev.seq("s", v).i("ok", x.ok).i("n", x.n).b("thr", x.thr);
        for (long c : v) if (set.wide && set.buf && c >= 0xD800 && c < 0xE000) broken = true;
        if (!v.empty()) dirty = true; put(ev);
    }
    void flush() { int ok = s->flush(); vp::Ev ev("flush"); ev.i("ok", ok); if (!broken) dirty = false; put(ev); }
    void tell() { if (app && dirty) flush(); long p = -1; int ok = s->tell(p); vp::Ev ev("tell"); ev.i("ok", ok).i("p", p); put(ev); }
    void seek(long p) { int ok = s->seek_to(p); vp::Ev ev("seek"); ev.i("p", p).i("ok", ok); if (!broken) dirty = false; put(ev); }
    void seek_told()
    {
        if (s->told.empty()) return tell();
        std::size_t i = std::size_t(r.below(long(s->told.size()))); long p = s->told[i]; int ok = s->seek_told(i);
        vp::Ev ev("seek"); ev.i("p", p).i("ok", ok); if (!broken) dirty = false; put(ev);
    }
    long ch()
    {
        if (r.chance(30)) return 10;
        if (r.chance(20)) return 13;
        if (set.wide && !ascii && r.chance(35)) { if (r.chance(4)) return 0xD800; static const long cs[] = { /* no lead byte F4, after which libc accepts too much */ 0xE5, 0x20AC, 0x1F600, 0x7FF, 0x800, 0xFFFD, 0x10000, 0xFFFFF }; return cs[r.below(8)]; }
        return r.chance(5) && (!set.wide || ascii) ? 0 : r.range(97, 104);   // (libstdc++ overlooks an incomplete sequence before a NUL)
    }
    Text some(long max) { Text v; long n = r.chance(15) ? 0 : r.range(1, max); for (long i = 0; i < n; ++i) v.push_back(ch()); return v; }
    std::string raw()
    {
        static const char* parts[] = { "a", "b", "c", "\r\n", "\n", "\r", "\xC3\xA5", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "d", "ef", "\r\r\n" };
        static const char* bad[] = { "\xE2\x82", "\xFF", "\x80", "\xF0\x9F", "\xC3" };
        std::string s; long n = r.range(0, 14);
        ascii = r.chance(20);
        if (ascii) { for (long i = 0; i < n; ++i) s += char(r.chance(20) ? 0 : r.chance(30) ? 13 : r.chance(30) ? 10 : 97); return s; }
        for (long i = 0; i < n; ++i) s += r.chance(4) ? bad[r.below(5)] : parts[r.below(12)];
        return s;
    }
    static bool valid(const Text& v) { for (long c : v) if (c >= 0xD800 && c < 0xE000) return false; return true; }
    template<class F> void files(bool load)
    {
        using C = typename F::char_type; std::locale loc("C.UTF-8"); auto p = std::filesystem::path(path); std::error_code ec;
        if (!load) {
            Text v = some(10); bool ok = r.chance(50) ? tried([&] { F::save(p, str<C>(v), loc); }) : F::try_save(p, str<C>(v), ec, loc); vp::Ev ev("save"); ev.seq("s", v).i("ok", ok); put(ev);
        }
        else {
            bool chomp = r.chance(50);
            if (r.chance(40)) { std::basic_string<C> u; bool ok = tried([&] { u = chomp ? F::load_and_chomp(p, loc) : F::load(p, loc); }); vp::Ev ev("load"); ev.b("chomp", chomp).i("ok", ok).seq("pre", Text{}).seq("r", text(u.data(), u.size())); put(ev); return; }
            if (r.chance(20)) {
                Text v; bool ok = tried([&] { std::unique_ptr<F> f; if (r.chance(50)) f = std::make_unique<F>(p, loc); else f = std::make_unique<F>(p, core::File::Mode::read, loc); auto u = f->read_all(); v = text(u.data(), u.size()); });
                vp::Ev ev("load"); ev.b("chomp", false).i("ok", ok).seq("pre", Text{}).seq("r", v); put(ev); return;
            }
            core::Buffer<C> b(std::size_t(4)); std::size_t off = std::size_t(r.range(0, 3)), off0 = off; for (std::size_t i = 0; i < off; ++i) b[i] = C(r.chance(70) ? 10 : 97);
            Text pre = text(b.data(), off0);
            bool ok = chomp ? F::try_load_and_chomp(p, b, off, ec, loc) : F::try_load(p, b, off, ec, loc);
            vp::Ev ev("load"); ev.b("chomp", chomp).i("ok", ok).seq("pre", pre).seq("r", ok ? text(b.data(), off) : text(b.data(), off0)); put(ev);
        }
    }
    void step()
    {
        if (!open) {
            if (!set.stream && !set.dyn && r.chance(25)) {
                bool load = r.chance(50); int k = (set.wide ? 2 : 0) + (set.nl ? 1 : 0);
                if (k == 0) files<core::PosixTextFile>(load); else if (k == 1) files<core::WindowsTextFile>(load); else if (k == 2) files<core::WidePosixTextFile>(load); else files<core::WideWindowsTextFile>(load);
                return;
            }
            long x = r.below(10); do_open(x < 6 ? Mode::update : x < 7 ? Mode::append : x < 8 ? Mode::write : x < 9 ? Mode::read : Mode::update); return;
        }
        if (broken && r.chance(40)) { if (r.chance(50)) flush(); do_close(); return; }
        switch (r.below(22)) {
        case 0: case 1: case 2: case 3: read(r.range(0, 7)); break;
        case 4: case 5: if (s->has_some()) { long n = r.range(0, 5); reads("read_some", s->read_some(n), n); } else read(1); break;
        case 6: case 7: if (s->has_line()) { Res x = s->read_line(); vp::Ev ev("read_line"); ev.seq("r", x.r).b("found", x.found).i("ok", set.stream ? 2 : x.ok); if (!broken) dirty = false; if (set.stream && broken) ev = vp::Ev("read"), ev.i("n", 0).seq("r", Text{}).i("ok", 2).b("thr", false); put(ev); } else read(2); break;
        case 8: if (r.chance(25)) reads("read_all", s->read_all(), 0); else read(3); break;
        case 9: if (s->has_peek()) { Res x = s->peek(); vp::Ev ev("peek"); ev.seq("r", x.r); if (!broken) dirty = false; put(ev); } else read(1); break;
        case 10: case 11: case 12: case 13: case 14:
            if (ro || disk().size() > 60) { if (disk().size() > 60 && !ro) { do_close(); do_open(Mode::write); } else read(2); }
            else { bool line = s->has_line() && !set.stream && r.chance(20); Text v = some(6); if (line) v.push_back(10); if (line && !valid(v)) line = false; write(v, line); }
            break;
        case 15: if (r.chance(25) && !ro) s->unshift(); flush(); break;
        case 16: case 17: tell(); break;
        case 18: case 19: seek_told(); break;
        case 20: seek(r.chance(8) ? -r.range(1, 5) : r.range(0, long(disk().size()) + (r.chance(20) && (!set.wide || ascii) ? 4 : 0))); break;
        case 21: if (r.chance(40)) do_close(); else read(r.range(8, 30)); break;
        }
    }
    void episode(long steps) { begin(raw()); do_open(Mode::update); for (long i = 0; i < steps; ++i) step(); if (open) do_close(); }
    void script(const vp::J& j)
    {
        std::string f; for (auto& x : j.a[0]["s"].a) f += char(x.n);
        do begin(f); while (!set.nl || set.dyn);
        do_open(Mode::update);
        for (std::size_t i = 1; i < j.a.size(); ++i) {
            const std::string& o = j.a[i]["o"].s; Text v; for (auto& x : j.a[i]["s"].a) v.push_back(x.n);
            if (o == "read") read(j.a[i]["n"].n); else if (o == "write") write(v, false); else if (o == "flush") flush(); else if (o == "tell") tell(); else if (o == "seek") seek(j.a[i]["n"].n);
        }
        read(2); tell(); do_close();
    }
};

int main(int argc, char** argv)
{
    std::locale::global(std::locale("C.UTF-8"));
    vp::Args a(argc, argv); vp::Trace t(a.trace); vp::Rng r(a.seed);
    Run x { t, r, std::string(a.trace) + ".txt" };
    for (auto& s : a.scripts) x.script(s);
    for (long i = 0; i < a.episodes; ++i) x.episode(a.steps);
    ::unlink(x.path.c_str());
}
