// Drives core::File on files in a directory of its own, with exchanges with the system that are short, interrupted, or fail
#include "common.hpp"
#include <array>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <filesystem>
#include <fstream>
#include <thread>
#include <unistd.h>
#include <sys/file.h>
#include <archon/core/file.hpp>

using namespace archon;
using core::File;
using vp::Ev;

namespace {

bool active = false; // Exchanges are under control and recorded
std::vector<long long> sys;
vp::Rng* grng = nullptr;
int p_short = 0, p_intr = 0, p_err = 0;

std::atomic<int> lock_intr { 0 };

} // namespace

extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int __real_flock(int, int);

ssize_t __wrap_read(int fd, void* p, size_t n)
{
    if (!active) return __real_read(fd, p, n);
    if (grng->chance(std::uint32_t(p_intr))) { sys.push_back(-1); errno = EINTR; return -1; }
    if (grng->chance(std::uint32_t(p_err))) { sys.push_back(-2); errno = EIO; return -1; }
    if (n > 1 && grng->chance(std::uint32_t(p_short))) n = std::size_t(grng->range(1, long(n) - 1));
    ssize_t k = __real_read(fd, p, n);
    sys.push_back(k < 0 ? -2 : k);
    return k;
}
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
    if (!active) return __real_write(fd, p, n);
    if (grng->chance(std::uint32_t(p_intr))) { sys.push_back(-1); errno = EINTR; return -1; }
    if (grng->chance(std::uint32_t(p_err))) { sys.push_back(-2); errno = ENOSPC; return -1; }
    if (n > 1 && grng->chance(std::uint32_t(p_short))) n = std::size_t(grng->range(1, long(n) - 1));
    ssize_t k = __real_write(fd, p, n);
    int e = errno;
    sys.push_back(k < 0 ? -2 : k);
    errno = e;
    return k;
}
int __wrap_flock(int fd, int op)
{
    if (lock_intr > 0 && op != LOCK_UN) { --lock_intr; errno = EINTR; return -1; }
    return __real_flock(fd, op);
}
}

namespace {

std::string dir;
const std::vector<std::string> names { "a", "b" };
std::filesystem::path at(const std::string& name) { return dir + "/" + name; }

std::string bytes(std::string_view s) { std::string o = "["; for (std::size_t i = 0; i < s.size(); ++i) { if (i) o += ','; o += std::to_string(int((unsigned char)s[i])); } return o + "]"; }
std::string content(const std::string& name)
{
    std::ifstream in(at(name), std::ios::binary);
    if (!in) return "{\"missing\":true,\"data\":[]}";
    std::string s((std::istreambuf_iterator<char>(in)), {});
    return "{\"missing\":false,\"data\":" + bytes(s) + "}";
}

std::string why(const std::error_code& ec)
{
    if (ec == std::errc::no_such_file_or_directory) return "missing";
    if (ec == std::errc::file_exists) return "exists";
    if (ec == std::errc::is_a_directory) return "directory";
    return "error";
}

struct H { File f; std::string lock = "no", path; };

class Driver {
public:
    Driver(vp::Rng& rng, vp::Trace& tr): rng(rng), tr(tr) {}
    vp::Rng& rng; vp::Trace& tr;
    std::array<H, 3> hs;

    void reset()
    {
        for (auto& h : hs) { h.f.close(); h.lock = "no"; h.path = ""; }
        std::string files = "{";
        for (auto& n : names) {
            ::unlink(at(n).c_str());
            if (rng.chance(60)) { std::ofstream out(at(n), std::ios::binary); out << text(rng.chance(90) ? 12 : 2000); }
            if (files.size() > 1) files += ',';
            files += "\"" + n + "\":" + content(n);
        }
        tr.put(Ev("reset").raw("files", files + "}"));
        int k = int(rng.below(4));
        p_short = k == 0 ? 0 : k == 1 ? 30 : 70; p_intr = rng.chance(50) ? 0 : 15; p_err = rng.chance(50) ? 0 : 6;
    }
    std::string text(long max) { std::string s; for (long n = rng.range(0, max); n > 0; --n) s += char(rng.chance(90) ? rng.range('a', 'z') : rng.range(0, 255)); return s; }
    std::string opens() { std::string o = "["; for (auto& h : hs) { if (o.size() > 1) o += ','; o += h.f.is_open() ? "true" : "false"; } return o + "]"; }
    H& get(int h) { return hs[std::size_t(h - 1)]; }
    template<class F> void controlled(F f) { sys.clear(); grng = &rng; active = true; f(); active = false; }

    void open(int h, const std::string& path, const std::string& mode, const std::string& access, const std::string& create, const std::string& write)
    {
        File::Mode m = mode == "update" ? File::Mode::update : mode == "write" ? File::Mode::write : mode == "append" ? File::Mode::append : File::Mode::read;
        auto a = access == "r" ? File::AccessMode::read_only : File::AccessMode::read_write;
        auto c = create == "never" ? File::CreateMode::never : create == "allow" ? File::CreateMode::allow : File::CreateMode::must;
        auto w = write == "normal" ? File::WriteMode::normal : write == "trunc" ? File::WriteMode::trunc : File::WriteMode::append;
        std::string r = "ok"; std::error_code ec;
        File& f = get(h).f;
        if (rng.chance(50)) {
            bool ok = mode.empty() ? f.try_open(at(path), a, c, w, ec) : f.try_open(at(path), m, ec);
            if (!ok) r = why(ec);
            else if (ec) r = "error code set";
        }
        else {
            try {
                if (mode.empty()) f.open(at(path), a, c, w);
                else if (rng.chance(50)) f.open(at(path), m);
                else f = File(at(path), m);
            }
            catch (std::filesystem::filesystem_error& e) { r = why(e.code()); }
        }
        if (r != "ok") f.close();
        get(h).lock = "no"; get(h).path = r == "ok" ? path : "";
        Ev e("open");
        e.i("h", h).s("path", path).s("mode", mode).s("access", access).s("create", create).s("write", write).s("r", r).raw("open", opens());
        if (path != "dir") e.raw("content", content(path));
        tr.put(e);
    }
    void close(int h) { get(h).f.close(); get(h).lock = "no"; get(h).path = ""; tr.put(Ev("close").i("h", h).raw("open", opens())); }
    void move(int g, int h)
    {
        if (rng.chance(50)) get(h).f = std::move(get(g).f);
        else { File tmp(std::move(get(g).f)); get(h).f = std::move(tmp); }
        get(h).lock = get(g).lock; get(g).lock = "no"; get(h).path = get(g).path; get(g).path = "";
        tr.put(Ev("move").i("g", g).i("h", h).raw("open", opens()));
    }
    void read(int h, long size)
    {
        std::vector<char> buf(std::size_t(size), 'Z'); core::Span<char> span(buf.data(), buf.size());
        std::size_t n = 777777; std::error_code ec; bool intr = true; std::string r = "ok", form; long long told = 0;
        File& f = get(h).f;
        int which = int(rng.below(5));
        controlled([&] {
            bool ok = true;
            switch (which) {
                case 0: form = "all"; ok = f.try_read(span, n, ec); break;
                case 1: form = "some"; ok = f.try_read_some(span, n, ec); break;
                case 2: form = "once"; ok = f.try_read_some_a(span, n, intr, ec); if (!ok && intr) r = "interrupted"; break;
                case 3: form = "all"; try { n = f.read(span); } catch (std::system_error& e) { ok = false; ec = e.code(); } break;
                case 4: form = "some"; try { n = f.read_some(span); } catch (std::system_error& e) { ok = false; ec = e.code(); } break;
            }
            if (!ok && r == "ok") r = ec ? "error" : "no error code";
            else if (ec) r = "error code set";
            told = !ok && which >= 3 ? -2 : n == 777777 ? -1 : (long long)n;
        });
        // What the buffer holds is known to the extent that bytes have been delivered
        long long got = 0; for (auto k : sys) if (k > 0) got += k;
        bool kept = true; for (std::size_t i = std::size_t(got); i < buf.size(); ++i) if (buf[i] != 'Z') kept = false;
        if (!kept) r = "buffer changed beyond what was read";
        tr.put(Ev("read").i("h", h).i("size", size).s("form", form).seq("sys", sys).s("r", r).i("n", told)
               .raw("data", bytes(std::string_view(buf.data(), std::min(buf.size(), std::size_t(got))))).raw("open", opens()));
    }
    void write(int h, const std::string& data)
    {
        std::vector<char> copy(data.begin(), data.end()); std::string_view span(copy.data(), copy.size());
        std::size_t n = 777777; std::error_code ec; bool intr = true; std::string r = "ok", form; long long told = 0;
        File& f = get(h).f;
        int which = int(rng.below(5));
        controlled([&] {
            bool ok = true;
            switch (which) {
                case 0: form = "all"; ok = f.try_write(span, n, ec); break;
                case 1: form = "some"; ok = f.try_write_some(span, n, ec); break;
                case 2: form = "once"; ok = f.try_write_some_a(span, n, intr, ec); if (!ok && intr) r = "interrupted"; break;
                case 3: form = "all"; try { f.write(span); n = 777777; } catch (std::system_error& e) { ok = false; ec = e.code(); } break;
                case 4: form = "some"; try { n = f.write_some(span); } catch (std::system_error& e) { ok = false; ec = e.code(); } break;
            }
            if (!ok && r == "ok") r = ec ? "error" : "no error code";
            else if (ec) r = "error code set";
            told = which == 3 || (!ok && which > 3) ? -2 : n == 777777 ? -1 : (long long)n;
        });
        Ev e("write");
        e.i("h", h).raw("data", bytes(data)).s("form", form).seq("sys", sys).s("r", r).i("n", told).raw("content", content(get(h).path)).raw("open", opens());
        tr.put(e);
    }
    void seek(int h, long off, const std::string& whence)
    {
        auto w = whence == "set" ? File::Whence::set : whence == "cur" ? File::Whence::cur : File::Whence::end;
        long long r = -1; File& f = get(h).f; std::error_code ec; File::offset_type res = -7;
        if (whence == "cur" && off == 0 && rng.chance(50)) r = f.tell();
        else if (whence == "set" && off >= 0 && rng.chance(20)) r = f.seek(off);
        else if (rng.chance(50)) { if (f.try_seek(off, w, res, ec)) r = ec ? -3 : res; else if (!ec) r = -3; }
        else try { r = f.seek(off, w); } catch (std::system_error&) {}
        tr.put(Ev("seek").i("h", h).i("off", off).s("whence", whence).i("r", r).raw("open", opens()));
    }
    void lock(int h, const std::string& kind)
    {
        bool ex = kind == "exclusive"; File& f = get(h).f;
        std::vector<int> in_way;
        for (int g = 1; g <= int(hs.size()); ++g) if (g != h && get(g).path == get(h).path && (get(g).lock == "exclusive" || (ex && get(g).lock == "shared"))) in_way.push_back(g);
        lock_intr = rng.chance(20) ? int(rng.range(1, 3)) : 0;
        if (rng.chance(75)) {
            bool r = ex ? f.nb_lock_exclusive() : f.nb_lock_shared();
            if (r) get(h).lock = kind;
            tr.put(Ev("lock").i("h", h).s("kind", kind).b("blocking", false).b("r", r).raw("open", opens()));
        }
        else {
            std::atomic<bool> got { false };
            std::thread t([&] { if (ex) f.lock_exclusive(); else f.lock_shared(); got = true; });
            auto wait = [&](long ms) { for (long k = 0; k < ms * 10 && !got; ++k) std::this_thread::sleep_for(std::chrono::microseconds(100)); };
            wait(in_way.empty() ? 30000 : 4);
            bool r = got;
            for (int g : in_way) { get(g).f.unlock(); get(g).lock = "no"; }
            wait(30000);
            if (!got) { std::printf("DRIVER-VIOLATION a lock that nothing is in the way of is never acquired\n"); std::fflush(stdout); std::_Exit(1); }
            t.join();
            get(h).lock = kind;
            tr.put(Ev("lock").i("h", h).s("kind", kind).b("blocking", true).b("r", r).seq("gave", in_way).raw("open", opens()));
        }
        lock_intr = 0;
    }
    void unlock(int h) { get(h).f.unlock(); get(h).lock = "no"; tr.put(Ev("unlock").i("h", h).raw("open", opens())); }
    void load(const std::string& path)
    {
        std::string data = "untouched", r = "ok"; std::error_code ec;
        controlled([&] {
            if (rng.chance(50)) { if (!File::try_load(at(path), data, ec)) r = why(ec); }
            else try { data = File::load(at(path)); } catch (std::filesystem::filesystem_error& e) { r = why(e.code()); }
        });
        tr.put(Ev("load").s("path", path).seq("sys", sys).s("r", r).raw("data", bytes(data)));
    }
    void save(const std::string& path, const std::string& data)
    {
        std::string r = "ok"; std::error_code ec;
        controlled([&] {
            if (rng.chance(50)) { if (!File::try_save(at(path), data, ec)) r = why(ec); }
            else try { File::save(at(path), data); } catch (std::filesystem::filesystem_error& e) { r = why(e.code()); }
        });
        tr.put(Ev("save").s("path", path).raw("data", bytes(data)).seq("sys", sys).s("r", r).raw("content", content(path)));
    }
    void touch(const std::string& path)
    {
        namespace fs = std::filesystem;
        std::string r = "ok"; std::error_code ec, ec2;
        auto old = fs::file_time_type::clock::now() - std::chrono::hours(100);
        fs::last_write_time(at(path), old, ec2);
        if (rng.chance(50)) { if (!File::try_touch(at(path), ec)) r = why(ec); }
        else try { File::touch(at(path)); } catch (fs::filesystem_error& e) { r = why(e.code()); }
        bool fresh = fs::last_write_time(at(path), ec2) > old + std::chrono::hours(50);
        tr.put(Ev("touch").s("path", path).s("r", r).b("fresh", fresh && !ec2).raw("content", content(path)));
    }

    void random_op()
    {
        static const std::vector<std::string> modes { "read", "update", "write", "append" };
        int h = int(rng.range(1, long(hs.size())));
        bool is_open = get(h).f.is_open();
        std::string path = rng.pick(names);
        int k = int(rng.below(100));
        if (!is_open || k < 10) {
            if (rng.chance(3)) path = "dir";
            if (rng.chance(50)) open(h, path, rng.pick(modes), "", "", "");
            else {
                std::string a = rng.chance(25) ? "r" : "rw", c = "never", w = "normal";
                if (a == "rw") { c = rng.chance(40) ? "never" : rng.chance(70) ? "allow" : "must"; w = rng.chance(40) ? "normal" : rng.chance(50) && c != "must" ? "trunc" : "app"; }
                if (path == "dir") { a = "r"; c = "never"; w = "normal"; }
                open(h, path, "", a, c, w);
            }
        }
        else if (k < 30) read(h, rng.chance(90) ? rng.range(0, 10) : rng.range(0, 3000));
        else if (k < 50) write(h, text(rng.chance(93) ? 8 : 1500));
        else if (k < 67) seek(h, rng.chance(20) ? 0 : rng.range(-5, 20), rng.chance(40) ? "set" : rng.chance(50) ? "cur" : "end");
        else if (k < 80) { if (get(h).lock == "no") lock(h, rng.chance(50) ? "shared" : "exclusive"); else unlock(h); }
        else if (k < 83) unlock(h);
        else if (k < 87) close(h);
        else if (k < 91) { int g = int(rng.range(1, long(hs.size()))); if (g != h) move(h, g); }
        else if (k < 94) load(rng.chance(5) ? "dir" : path);
        else if (k < 97) save(path, text(rng.chance(80) ? 8 : 1500));
        else touch(path);
    }
};

} // namespace

int main(int argc, char** argv)
{
    vp::Args a(argc, argv);
    vp::Rng rng(a.seed);
    vp::Trace tr(a.trace);
    char tmpl[] = "/tmp/vp-c10-XXXXXX";
    dir = ::mkdtemp(tmpl);
    std::filesystem::create_directory(at("dir"));
    {
        Driver d(rng, tr);
        for (const vp::J& s : a.scripts) {
            d.reset();
            for (const vp::J& j : s.a) {
                const std::string& o = j["o"].s;
                int h = int(j["h"].n);
                if (o == "open") d.open(h, j["path"].s, "", j["access"].s, j["create"].s, j["write"].s);
                else if (o == "move") { if (d.get(int(j["g"].n)).f.is_open()) d.move(int(j["g"].n), h); }
                else if (!d.get(h).f.is_open()) continue;
                else if (o == "close") d.close(h);
                else if (o == "read") d.read(h, long(j["n"].n));
                else if (o == "write") d.write(h, d.text(3));
                else if (o == "seek") d.seek(h, long(j["off"].n), j["whence"].s);
                else if (o == "lock") { if (d.get(h).lock == "no") d.lock(h, j["kind"].s); }
                else if (o == "unlock") d.unlock(h);
            }
        }
        for (long e = 0; e < a.episodes; ++e) {
            d.reset();
            for (long s = 0; s < a.steps; ++s) d.random_op();
        }
    }
    std::filesystem::remove_all(dir);
}
