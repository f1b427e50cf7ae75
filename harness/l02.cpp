// Threads that log through shared loggers: under a scheduler that decides who goes on, and freely.
#include "common.hpp"
#include <memory>
#include <sstream>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <atomic>
#include <unistd.h>
#include <archon/core/file.hpp>
#include <archon/log/logger.hpp>
#include <archon/log/stream_logger.hpp>
#include <archon/log/limit_logger.hpp>
#include <archon/log/prefix_logger.hpp>
#include <archon/log/channel_logger.hpp>
#include <archon/log/duplicating_logger.hpp>
#include <archon/log/encoding_logger.hpp>

using namespace archon;
using vp::Ev;

namespace {

// Lets one thread at a time go on from the points where they stop
class Sched {
public:
    enum State { running, waiting, finished };
    explicit Sched(int n): m_state(std::size_t(n), running), m_go(std::size_t(n), false) {}

    void point(int t)
    {
        std::unique_lock lock(m_mutex);
        m_state[std::size_t(t)] = waiting;
        m_changed.notify_all();
        m_cv.wait(lock, [&] { return m_free || m_go[std::size_t(t)]; });
        m_go[std::size_t(t)] = false;
        m_state[std::size_t(t)] = running;
    }
    void finish(int t) { std::lock_guard lock(m_mutex); m_state[std::size_t(t)] = finished; m_changed.notify_all(); }

    // All that are not stuck on a lock have stopped
    void settle(int t, int ms)
    {
        std::unique_lock lock(m_mutex);
        m_changed.wait_for(lock, std::chrono::milliseconds(ms), [&] { return m_state[std::size_t(t)] != running; });
    }
    bool grant(int t)
    {
        std::unique_lock lock(m_mutex);
        if (m_state[std::size_t(t)] != waiting) return false;
        m_go[std::size_t(t)] = true; m_state[std::size_t(t)] = running;
        m_cv.notify_all();
        m_changed.wait_for(lock, std::chrono::microseconds(1500), [&] { return m_state[std::size_t(t)] != running; });
        return true;
    }
    // Threads that can be granted; waits until there is one, or none is left
    std::vector<int> ready()
    {
        std::unique_lock lock(m_mutex);
        auto any = [&] { for (auto s : m_state) if (s == waiting) return true; return false; };
        auto over = [&] { for (auto s : m_state) if (s != finished) return false; return true; };
        if (!m_changed.wait_for(lock, std::chrono::seconds(60), [&] { return any() || over(); })) {
            std::printf("DRIVER-VIOLATION threads that log are stuck\n"); std::fflush(stdout); std::_Exit(1);
        }
        std::vector<int> v; for (std::size_t t = 0; t < m_state.size(); ++t) if (m_state[t] == waiting) v.push_back(int(t));
        return v;
    }
private:
    std::mutex m_mutex; std::condition_variable m_cv, m_changed;
    std::vector<State> m_state; std::vector<bool> m_go; bool m_free = false;
};

struct Me { int t = -1; std::vector<std::string> lines; std::string prefix; };
thread_local Me me;
Sched* sched = nullptr; // Otherwise threads are free
std::mutex trace_mutex;
std::string dir;

void point()
{
    if (me.t < 0) return;
    if (sched) sched->point(me.t);
    else std::this_thread::yield();
}

struct Slow { std::string s; };
template<class C> std::basic_ostream<C>& operator<<(std::basic_ostream<C>& out, const Slow& x)
{
    std::size_t half = x.s.size() / 2;
    for (std::size_t i = 0; i < half; ++i) out << x.s[i];
    point();
    for (std::size_t i = half; i < x.s.size(); ++i) out << x.s[i];
    return out;
}

template<class C> class SlowPrefix final : public log::BasicPrefix<C> {
public:
    void format_prefix(std::basic_ostream<C>& out) const override { out << "s"; point(); out << "p: "; }
};

class Root final : public log::RootLogger {
public:
    Root(int r, vp::Trace* tr): log::RootLogger(std::locale::classic()), m_r(r), m_tr(tr) {}
    std::string out;
protected:
    void root_log(std::string_view m) override
    {
        if (m_tr) {
            std::lock_guard lock(trace_mutex);
            m_tr->put(Ev("enter").i("t", me.t + 1).i("r", m_r).s("text", m).s("prefix", me.prefix).strs("lines", me.lines));
        }
        std::size_t half = m.size() / 2;
        for (std::size_t i = 0; i < half; ++i) out += m[i];
        point();
        for (std::size_t i = half; i < m.size(); ++i) out += m[i];
        if (m_tr) {
            std::lock_guard lock(trace_mutex);
            m_tr->put(Ev("leave").i("t", me.t + 1).i("r", m_r));
        }
    }
private:
    int m_r; vp::Trace* m_tr;
};

// Channel "" goes to the first root, "two" to the second, and "both" to both
struct Tree {
    std::unique_ptr<log::ChannelLogger> c1, c2;
    std::unique_ptr<log::DuplicatingLogger> dup;
    std::unique_ptr<log::LimitLogger> lim;
    log::Logger* top = nullptr;
    Tree(log::Logger& a, log::Logger& b, int form)
    {
        c1 = std::make_unique<log::ChannelLogger>(a, "two", b);
        c2 = std::make_unique<log::ChannelLogger>(*c1, "both", form % 2 ? a : b);
        if (form / 2 % 2) {
            lim = std::make_unique<log::LimitLogger>(*c2);
            m_other = std::make_unique<log::Logger>(*lim, form % 2 ? "two" : "");
            dup = std::make_unique<log::DuplicatingLogger>(*lim, "both", *m_other);
            top = dup.get();
        }
        else {
            dup = std::make_unique<log::DuplicatingLogger>(*c2, "both", form % 2 ? b : a);
            lim = std::make_unique<log::LimitLogger>(*dup);
            top = lim.get();
        }
    }
private:
    std::unique_ptr<log::Logger> m_other;
};

const char* const channels[3] = { "", "two", "both" };
const std::vector<std::vector<int>> routes { { 1 }, { 2 }, { 1, 2 } };

// What a thread logs with, and logging
class Mine {
public:
    Mine(log::Logger& top, int t, vp::Rng& rng)
    {
        name = "T" + std::to_string(t) + ": ";
        for (int c = 0; c < 3; ++c) {
            slow[c] = rng.chance(60); wide[c] = rng.chance(25);
            sel[c] = std::make_unique<log::Logger>(top, channels[c]);
            base[c] = std::make_unique<log::PrefixLogger>(*sel[c], name);
            if (wide[c]) {
                enc[c] = std::make_unique<log::WideEncodingLogger>(*base[c]);
                log::WideLogger& w = *enc[c];
                if (slow[c]) wslow[c] = std::make_unique<log::WideLogger>(wp, w.get_channel(), w.get_channel_map());
            }
            else if (slow[c]) nslow[c] = std::make_unique<Slower>(*base[c]);
        }
    }
    std::string prefix(int c) const { return name + (slow[c] ? "sp: " : ""); }
    void log(int c, int level, const std::string& text)
    {
        if (wide[c]) (slow[c] ? *wslow[c] : static_cast<log::WideLogger&>(*enc[c])).log(log::LogLevel(level), "%s", Slow { text });
        else if (slow[c]) nslow[c]->lg.log(log::LogLevel(level), "%s", Slow { text });
        else base[c]->log(log::LogLevel(level), "%s", Slow { text });
    }
private:
    struct Slower {
        SlowPrefix<char> p; log::CompoundPrefix cp; log::Logger lg;
        explicit Slower(log::Logger& b): cp(b.get_prefix(), p), lg(cp, b.get_channel(), b.get_channel_map()) {}
    };
    std::string name;
    bool slow[3], wide[3];
    SlowPrefix<wchar_t> wp;
    std::unique_ptr<log::Logger> sel[3];
    std::unique_ptr<log::PrefixLogger> base[3];
    std::unique_ptr<log::WideEncodingLogger> enc[3];
    std::unique_ptr<log::WideLogger> wslow[3];
    std::unique_ptr<Slower> nslow[3];
};

struct Msg { int c; int level; std::vector<std::string> lines; };

std::string joined(const std::vector<std::string>& v) { std::string s; for (std::size_t i = 0; i < v.size(); ++i) { if (i) s += '\n'; s += v[i]; } return s; }

Msg message(vp::Rng& rng, int t, int m, int lo, int hi)
{
    Msg x; x.c = int(rng.below(3)); x.level = int(rng.range(lo, hi));
    long n = rng.chance(60) ? 1 : rng.range(2, 3);
    for (long i = 0; i < n; ++i) {
        std::string s = std::to_string(t) + "." + std::to_string(m) + "." + std::to_string(i) + std::string(std::size_t(rng.below(6)), char('a' + t));
        if (rng.chance(4)) s += std::string(std::size_t(rng.range(500, 2600)), char('A' + t));
        x.lines.push_back(s);
    }
    return x;
}

// One run where the scheduler decides. The order is that of thread numbers (from 1), with zero for a change of the limit.
void scheduled(vp::Rng& rng, vp::Trace& tr, int n, int msgs, const std::vector<int>& order)
{
    Root a(1, &tr), b(2, &tr);
    int form = int(rng.below(4));
    Tree tree(a, b, form);
    int limit = 5; tree.lim->set_log_level_limit(log::LogLevel(limit));
    tr.put(Ev("reset").i("limit", limit));
    std::vector<std::unique_ptr<Mine>> mine; std::vector<std::vector<Msg>> todo;
    for (int t = 0; t < n; ++t) {
        mine.push_back(std::make_unique<Mine>(*tree.top, t, rng));
        todo.emplace_back();
        for (int m = 0; m < msgs; ++m) todo.back().push_back(message(rng, t, m, 4, 7));
    }
    Sched s(n); sched = &s;
    std::vector<std::thread> threads;
    for (int t = 0; t < n; ++t)
        threads.emplace_back([&, t] {
            me.t = t;
            for (const Msg& m : todo[std::size_t(t)]) {
                point();
                me.lines = m.lines; me.prefix = mine[std::size_t(t)]->prefix(m.c);
                { std::lock_guard lock(trace_mutex); tr.put(Ev("submit").i("t", t + 1).i("level", m.level).seq("route", routes[std::size_t(m.c)])); }
                mine[std::size_t(t)]->log(m.c, m.level, joined(m.lines));
                { std::lock_guard lock(trace_mutex); tr.put(Ev("done").i("t", t + 1)); }
            }
            s.finish(t);
        });
    for (int t = 0; t < n; ++t) s.settle(t, 2000);
    auto change = [&] {
        std::lock_guard lock(trace_mutex);
        limit = int(rng.range(3, 7));
        tree.lim->set_log_level_limit(log::LogLevel(limit));
        tr.put(Ev("set").i("v", limit));
    };
    for (int t : order) { if (t == 0) change(); else s.grant(t - 1); }
    for (;;) {
        std::vector<int> v = s.ready();
        if (v.empty()) break;
        if (rng.chance(5)) change();
        s.grant(rng.pick(v));
    }
    for (auto& t : threads) t.join();
    sched = nullptr;
}

// One run where threads are free
void unscheduled(vp::Rng& rng, vp::Trace& tr, int n, int msgs)
{
    std::ostringstream out; std::string path = dir + "/log"; ::unlink(path.c_str());
    Root custom(1, nullptr);
    std::unique_ptr<log::Logger> file, stream;
    bool file_first = rng.chance(50);
    log::Logger* a = &custom; log::Logger* b;
    if (rng.chance(50)) { file = std::make_unique<log::FileLogger>(core::FilesystemPathRef(path)); b = file.get(); }
    else { stream = std::make_unique<log::StreamLogger>(out); b = stream.get(); }
    if (file_first) std::swap(a, b);
    Tree tree(*a, *b, int(rng.below(4)));
    int limit = 5; tree.lim->set_log_level_limit(log::LogLevel(limit));
    std::vector<std::unique_ptr<Mine>> mine; std::vector<std::vector<Msg>> todo;
    for (int t = 0; t < n; ++t) {
        mine.push_back(std::make_unique<Mine>(*tree.top, t, rng));
        todo.emplace_back();
        for (int m = 0; m < msgs; ++m) todo.back().push_back(message(rng, t, m, 4, 6));
    }
    std::atomic<bool> go { false };
    std::vector<std::thread> threads;
    for (int t = 0; t < n; ++t)
        threads.emplace_back([&, t] {
            me.t = t;
            while (!go) std::this_thread::yield();
            for (const Msg& m : todo[std::size_t(t)]) mine[std::size_t(t)]->log(m.c, m.level, joined(m.lines));
        });
    go = true;
    for (auto& t : threads) t.join();
    std::string msgs_text = "[", out_text = "[";
    for (int r = 1; r <= 2; ++r) {
        if (r == 2) { msgs_text += ','; out_text += ','; }
        msgs_text += '[';
        for (int t = 0; t < n; ++t) {
            if (t) msgs_text += ',';
            msgs_text += '[';
            bool first = true;
            for (const Msg& m : todo[std::size_t(t)]) {
                bool goes = m.c == 2 || m.c == r - 1;
                if (!goes || m.level > limit) continue;
                if (!first) msgs_text += ',';
                first = false;
                msgs_text += '[';
                for (std::size_t i = 0; i < m.lines.size(); ++i) { if (i) msgs_text += ','; vp::json_str(msgs_text, mine[std::size_t(t)]->prefix(m.c) + m.lines[i]); }
                msgs_text += ']';
            }
            msgs_text += ']';
        }
        msgs_text += ']';
        log::Logger* lg = r == 1 ? a : b;
        std::string got;
        if (lg == &custom) got = custom.out;
        else if (stream) got = out.str();
        else { std::ifstream in(path, std::ios::binary); got.assign(std::istreambuf_iterator<char>(in), {}); }
        out_text += '[';
        std::size_t p = 0; bool first = true;
        while (p < got.size()) {
            std::size_t e = got.find('\n', p); std::string line = got.substr(p, e == std::string::npos ? e : e - p) + (e == std::string::npos ? " (without end)" : "");
            if (!first) out_text += ',';
            first = false; vp::json_str(out_text, line);
            p = e == std::string::npos ? got.size() : e + 1;
        }
        out_text += ']';
    }
    tr.put(Ev("all").raw("msgs", msgs_text + "]").raw("out", out_text + "]"));
    ::unlink(path.c_str());
}

} // namespace

int main(int argc, char** argv)
{
    vp::Args a(argc, argv);
    vp::Rng rng(a.seed);
    vp::Trace tr(a.trace);
    char tmpl[] = "/tmp/vp-l02-XXXXXX";
    dir = ::mkdtemp(tmpl);
    for (const vp::J& j : a.scripts) { std::vector<int> order = j["order"].ints(); int n = 1; for (int t : order) n = std::max(n, t); scheduled(rng, tr, n, int(j["msgs"].n), order); }
    for (long e = 0; e < a.episodes; ++e) scheduled(rng, tr, int(rng.range(2, 4)), int(rng.range(1, 4)), {});
    for (long e = 0; e < a.steps; ++e) { tr.put(Ev("reset").i("limit", 5)); unscheduled(rng, tr, int(rng.range(2, 6)), int(rng.range(5, 25))); }
    ::rmdir(dir.c_str());
}
