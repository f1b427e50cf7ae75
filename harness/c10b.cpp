// Driver of property C10, second part: which open files are closed when file objects are moved,
// closed and destroyed, those of the standard streams included. Each episode is a process.
#include "common.hpp"
#include <array>
#include <filesystem>
#include <memory>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <archon/core/file.hpp>
using namespace archon;
static std::string dir;
static std::string at(const char* n) { return dir + "/" + n; }
static const int slots = 5, stds = 2;

static void episode(vp::Rng& rng, vp::Trace& t, long steps)
{
    for (int i = 0; i < stds; ++i) {
        std::string p = at(i ? "std1" : "std0"); int fd = ::open(p.c_str(), O_RDWR | O_CREAT, 0666);
        if (fd < 0 || ::dup2(fd, i) != i) std::_Exit(4);
        ::close(fd);
    }
    struct stat is[3]; for (int i = 0; i < 2; ++i) if (::fstat(i, &is[i]) != 0) std::_Exit(4);
    if (::stat(at("f").c_str(), &is[2]) != 0) std::_Exit(4);
    std::array<std::unique_ptr<core::File>, slots> own;
    auto file = [&](int s) -> core::File* { return s == 1 ? &core::File::get_cin() : s == 2 ? &core::File::get_cout() : own[std::size_t(s - 1)].get(); };
    auto put = [&](vp::Ev ev) {
        std::string o = "["; for (int s = 1; s <= slots; ++s) { o += s > 1 ? "," : ""; o += file(s) && file(s)->is_open() ? "true" : "false"; }
        long n = 0; bool st[2] = {};
        for (int fd = 0; fd < 100; ++fd) { struct stat b; if (::fstat(fd, &b) == 0) { if (b.st_dev != is[0].st_dev) continue; if (b.st_ino == is[2].st_ino) ++n; for (int i = 0; i < 2; ++i) if (b.st_ino == is[i].st_ino) st[i] = true; } }
        t.put(ev.raw("open", o + "]").i("n", n).raw("std", std::string("[") + (st[0] ? "true" : "false") + "," + (st[1] ? "true" : "false") + "]"));
    };
    put(vp::Ev("fresh"));
    bool standard[slots + 1] = {}; standard[1] = standard[2] = true;   // Which objects hold a standard stream
    for (long k = 0; k < steps; ++k) {
        int s = int(rng.range(1, slots)); core::File* f = file(s); auto& u = own[std::size_t(s - 1)];
        switch (rng.below(5)) {
        case 0: case 1: {
            int d = int(rng.range(1, slots)); if (d == s || !f) break;
            if (file(d)) *file(d) = std::move(*f); else own[std::size_t(d - 1)] = std::make_unique<core::File>(std::move(*f));
            standard[d] = standard[s]; standard[s] = false; put(vp::Ev("give").i("s", s).i("d", d)); break; }
        case 2: {
            if (standard[s]) break;
            std::filesystem::path p(at("f")); core::File::Mode m = rng.chance(50) ? core::File::Mode::read : core::File::Mode::update;
            if (f && rng.chance(70)) f->open(p, m); else if (f) *f = core::File(p, m); else u = std::make_unique<core::File>(p, m);
            put(vp::Ev("enter").i("s", s)); break; }
        case 3: if (!f || (standard[s] && rng.chance(70))) break; f->close(); standard[s] = false; put(vp::Ev("shut").i("s", s)); break;
        default: if (s <= stds) break; u.reset(); standard[s] = false; put(vp::Ev("drop").i("s", s));
        }
    }
    t.flush();
}

int main(int argc, char** argv)
{
    vp::Args a(argc, argv);
    vp::Rng rng(a.seed);
    vp::Trace tr(a.trace);
    char tmpl[] = "/tmp/vp-c10-XXXXXX";
    dir = ::mkdtemp(tmpl);
    ::close(::open(at("f").c_str(), O_RDWR | O_CREAT, 0666));
    int bad = 0;
    for (long e = 0; e < a.episodes && !bad; ++e) {
        tr.flush();
        rng.below(1000);
        pid_t pid = ::fork();
        if (pid == 0) { episode(rng, tr, a.steps); std::_Exit(0); }
        int st = 0;
        if (pid < 0 || ::waitpid(pid, &st, 0) != pid) { std::fprintf(stderr, "fork\n"); std::exit(3); }
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad = WIFEXITED(st) ? WEXITSTATUS(st) : 1;
    }
    std::filesystem::remove_all(dir);
    return bad;
}
