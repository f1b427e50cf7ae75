// Drives check::TestRunner and records what its reporter and its tests observe.
#include "common.hpp"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <filesystem>
#include <iostream>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <stdexcept>
#include <thread>
#include <archon/log.hpp>
#include <archon/check.hpp>
#include <archon/check/test_runner.hpp>
#include <archon/check/reporter.hpp>
#include <archon/check/fail_context.hpp>
#include <archon/check/test_config.hpp>

using namespace archon;

namespace {

vp::Trace* g_trace = nullptr;
std::mutex g_trace_mutex;
void put(const vp::Ev& e) { std::lock_guard lock(g_trace_mutex); g_trace->put(e); }

struct Boom: std::runtime_error { using std::runtime_error::runtime_error; };

void maybe_throw(long a) { if (a == 1) throw Boom("boom"); }

struct Twice { bool operator()(long a, long b) const { return a == 2 * b; } };

// Performs the check on which integers it is given; returns its result
bool perform(check::TestContext& test_context, const std::string& op, long a, long b, long c)
{
    if (op == "cond") return ARCHON_CHECK(a == 1);
    if (op == "not") return ARCHON_CHECK_NOT(a == 1);
    if (op == "eq") return ARCHON_CHECK_EQUAL(a, b);
    if (op == "ne") return ARCHON_CHECK_NOT_EQUAL(a, b);
    if (op == "lt") return ARCHON_CHECK_LESS(a, b);
    if (op == "le") return ARCHON_CHECK_LESS_EQUAL(a, b);
    if (op == "nlt") return ARCHON_CHECK_NOT_LESS(a, b);
    if (op == "nle") return ARCHON_CHECK_NOT_LESS_EQUAL(a, b);
    if (op == "gt") return ARCHON_CHECK_GREATER(a, b);
    if (op == "ge") return ARCHON_CHECK_GREATER_EQUAL(a, b);
    if (op == "ngt") return ARCHON_CHECK_NOT_GREATER(a, b);
    if (op == "nge") return ARCHON_CHECK_NOT_GREATER_EQUAL(a, b);
    if (op == "dlt") return ARCHON_CHECK_DIST_LESS(a, b, c);
    if (op == "dle") return ARCHON_CHECK_DIST_LESS_EQUAL(a, b, c);
    if (op == "dnlt") return ARCHON_CHECK_DIST_NOT_LESS(a, b, c);
    if (op == "dnle") return ARCHON_CHECK_DIST_NOT_LESS_EQUAL(a, b, c);
    if (op == "dgt") return ARCHON_CHECK_DIST_GREATER(a, b, c);
    if (op == "dge") return ARCHON_CHECK_DIST_GREATER_EQUAL(a, b, c);
    if (op == "dngt") return ARCHON_CHECK_DIST_NOT_GREATER(a, b, c);
    if (op == "dnge") return ARCHON_CHECK_DIST_NOT_GREATER_EQUAL(a, b, c);
    if (op == "btw") return ARCHON_CHECK_BETWEEN(a, b, c);
    if (op == "nbtw") return ARCHON_CHECK_NOT_BETWEEN(a, b, c);
    if (op == "throw") return ARCHON_CHECK_THROW(maybe_throw(a), Boom);
    if (op == "throwex") return ARCHON_CHECK_THROW_EX(maybe_throw(a), Boom, (b == 1));
    if (op == "throwany") return ARCHON_CHECK_THROW_ANY(maybe_throw(a));
    if (op == "nothrow") return ARCHON_CHECK_NOTHROW(maybe_throw(a));
    if (op == "cmp") return ARCHON_CHECK_COMPARE(a, b, Twice());
    std::abort();
}

const std::vector<std::string> ops {
    "cond", "not", "eq", "ne", "lt", "le", "nlt", "nle", "gt", "ge", "ngt", "nge", "dlt", "dle", "dnlt", "dnle",
    "dgt", "dge", "dngt", "dnge", "btw", "nbtw", "throw", "throwex", "throwany", "nothrow", "cmp" };

bool holds(const std::string& op, long a, long b, long c)
{
    long d = std::abs(a - b);
    if (op == "cond") return a == 1;
    if (op == "not") return a != 1;
    if (op == "eq") return a == b;
    if (op == "ne") return a != b;
    if (op == "lt" || op == "nge") return a < b;
    if (op == "le" || op == "ngt") return a <= b;
    if (op == "nlt" || op == "ge") return a >= b;
    if (op == "nle" || op == "gt") return a > b;
    if (op == "dlt" || op == "dnge") return d < c;
    if (op == "dle" || op == "dngt") return d <= c;
    if (op == "dnlt" || op == "dge") return d >= c;
    if (op == "dnle" || op == "dgt") return d > c;
    if (op == "btw") return b <= a && a <= c;
    if (op == "nbtw") return !(b <= a && a <= c);
    if (op == "throw" || op == "throwany") return a == 1;
    if (op == "throwex") return a == 1 && b == 1;
    if (op == "nothrow") return a != 1;
    if (op == "cmp") return a == 2 * b;
    std::abort();
}

struct Recorder: check::Reporter {
    std::atomic<int> inside = 0;
    std::map<std::string, int> index; // Test name -> number
    struct Guard {
        Recorder& r;
        Guard(Recorder& r_): r(r_) { if (r.inside.fetch_add(1) != 0) put(vp::Ev("overlap")); }
        ~Guard() { r.inside.fetch_sub(1); }
    };
    int no(const check::TestContext& c) { return index.at(std::string(c.test_details.name)); }
    void root_begin(const check::RootContext& c) override
    {
        Guard g(*this);
        put(vp::Ev("root_begin").i("threads", c.num_threads).i("tests", long(c.num_tests)).i("execs", long(c.num_test_executions)).i("reps", c.num_repetitions));
    }
    void thread_begin(const check::ThreadContext& c) override { Guard g(*this); put(vp::Ev("thread_begin").i("t", c.thread_index)); std::this_thread::yield(); }
    void begin(const check::TestContext& c, log::Logger&) override
    {
        Guard g(*this);
        std::size_t ix = c.test_index;
        // The root context must describe the same test under that index
        if (c.thread_context.root_context.get_test_details(ix).name != c.test_details.name) ix = 999;
        put(vp::Ev("begin").i("t", c.thread_context.thread_index).i("x", no(c)).i("rep", c.repetition_no).i("ix", long(ix)));
        std::this_thread::yield();
    }
    void fail(const check::FailContext& c, std::string_view, log::Logger&) override
    {
        Guard g(*this);
        put(vp::Ev("fail").i("t", c.test_context.thread_context.thread_index).i("x", no(c.test_context)).i("rep", c.test_context.repetition_no));
        std::this_thread::yield();
    }
    void end(const check::TestContext& c, double, log::Logger&) override
    {
        Guard g(*this);
        put(vp::Ev("end").i("t", c.thread_context.thread_index).i("x", no(c)).i("rep", c.repetition_no));
        std::this_thread::yield();
    }
    void thread_end(const check::ThreadContext& c) override { Guard g(*this); put(vp::Ev("thread_end").i("t", c.thread_index)); std::this_thread::yield(); }
    void root_end(const check::RootContext&, const check::Summary& s) override
    {
        Guard g(*this);
        std::vector<long long> v { s.num_disabled_tests, s.num_excluded_tests, s.num_selected_tests, s.num_test_executions,
                                   s.num_failed_test_executions, s.num_checks, s.num_failed_checks };
        put(vp::Ev("root_end").seq("summary", v));
    }
};

struct NameFilter: check::Filter {
    std::set<std::string> excluded;
    bool include(const check::TestDetails& d) const noexcept override { return !excluded.count(std::string(d.name)); }
};

struct T { bool c, en, inc; };

bool disabled() { return false; }
bool enabled() { return true; }

struct NullLogger: log::Logger { };

struct Plan { // What an execution does
    struct Chk { std::string op; long a, b, c; bool inner; };
    std::vector<Chk> checks;
    int exit = 0; // 0: return, 1: throw std::exception, 2: throw other
    int sleep = 0;
    int burst = 0; // Number of threads that perform many checks at the same time
};

void episode(vp::Rng& rng, const std::string& dir, const std::vector<T>& tests, int reps, int req, bool shuffle,
             const std::vector<std::pair<int,int>>& order, int fail_percent)
{
    int hw = int(std::thread::hardware_concurrency());
    int seedid = int(rng.below(3));
    int override_ = rng.chance(20) ? int(rng.range(1, 4)) : 0;
    std::string ts = "[";
    for (auto& t : tests) {
        if (ts.size() > 1) ts += ",";
        auto s = [](bool b) { return std::string(b ? "true" : "false"); };
        ts += "{\"c\":" + s(t.c) + ",\"en\":" + s(t.en) + ",\"inc\":" + s(t.inc) + "}";
    }
    ts += "]";
    put(vp::Ev("reset").raw("tests", ts).i("reps", reps).i("req", req == 0 ? std::max(hw, 1) : req).b("shuffle", shuffle).i("seedid", seedid).i("override", override_));

    std::map<std::pair<int,int>, Plan> plans;
    for (std::size_t i = 0; i < tests.size(); ++i) for (int r = 1; r <= reps; ++r) {
        Plan p;
        int n = int(rng.below(4));
        bool want_fail = rng.chance(fail_percent);
        for (int k = 0; k < n; ++k) {
            bool want = !(want_fail && rng.chance(60));
            Plan::Chk c;
            for (int tries = 0; tries < 200; ++tries) {
                c = { rng.pick(ops), rng.range(-2, 4), rng.range(-2, 4), rng.range(0, 4), rng.chance(25) };
                if (holds(c.op, c.a, c.b, c.c) == want) break;
            }
            p.checks.push_back(c);
        }
        if (want_fail && rng.chance(40)) p.exit = int(rng.range(1, 2));
        if (rng.chance(4)) p.burst = int(rng.range(2, 4));
        p.sleep = order.empty() ? int(rng.below(4)) : 0;
        plans[{int(i) + 1, r}] = p;
    }

    std::mutex gm; std::condition_variable gcv; std::size_t done = 0; bool open = false;
    std::set<std::pair<int,int>> finished;
    auto main_id = std::this_thread::get_id();

    check::TestList list;
    std::deque<std::string> names;
    Recorder rec;
    NameFilter filter;
    for (std::size_t i = 0; i < tests.size(); ++i) {
        names.push_back("T" + std::to_string(i + 1));
        rec.index[names.back()] = int(i) + 1;
        if (!tests[i].inc) filter.excluded.insert(names.back());
        int x = int(i) + 1;
        auto func = [&, x](check::TestContext& test_context) {
            int rep = test_context.repetition_no;
            std::mt19937_64 random(test_context.seed_seq());
            long seed = long((random() ^ (random() >> 7)) & 0x3FFFFFFF);
            put(vp::Ev("enter").i("t", test_context.thread_context.thread_index).i("x", x).i("rep", rep)
                .b("main", std::this_thread::get_id() == main_id).i("seed", seed));
            static const Plan empty;
            auto pi = plans.find({ x, rep });
            const Plan& p = pi == plans.end() ? empty : pi->second;
            auto doit = [&](const Plan::Chk& c) {
                auto fill = [&](vp::Ev&& e) { return e.i("x", x).i("rep", rep).s("op", c.op).i("a", c.a).i("b", c.b).i("c", c.c); };
                put(fill(vp::Ev("check")));
                bool r = perform(test_context, c.op, c.a, c.b, c.c);
                put(fill(vp::Ev("ret")).b("r", r));
            };
            std::size_t half = p.checks.size() / 2;
            std::vector<std::thread> inner;
            for (std::size_t k = 0; k < half; ++k) {
                if (p.checks[k].inner) inner.emplace_back([&, k] { doit(p.checks[k]); });
                else doit(p.checks[k]);
            }
            if (p.sleep) std::this_thread::sleep_for(std::chrono::microseconds(p.sleep * 150));
            if (!order.empty()) {
                // Wait until it is this execution's turn to end
                std::unique_lock lock(gm);
                gcv.wait_for(lock, std::chrono::seconds(5), [&] {
                    if (open) return true;
                    for (auto& o : order) { if (o == std::pair<int,int>(x, rep)) return true; if (!finished.count(o)) return false; }
                    return true;
                }) || (open = true);
            }
            for (std::size_t k = half; k < p.checks.size(); ++k) {
                if (p.checks[k].inner) inner.emplace_back([&, k] { doit(p.checks[k]); });
                else doit(p.checks[k]);
            }
            for (auto& t : inner) t.join();
            if (p.burst) {
                const int m = 3000, every = 60 + x;
                int f = 0; for (int k = 0; k < m; ++k) if (k % every == 7) ++f;
                put(vp::Ev("burst").i("x", x).i("rep", rep).i("n", long(m) * p.burst).i("f", long(f) * p.burst));
                std::atomic<int> ready = 0;
                std::vector<std::thread> ts;
                for (int j = 0; j < p.burst; ++j) ts.emplace_back([&] {
                    ++ready; while (ready < p.burst) std::this_thread::yield();
                    for (int k = 0; k < m; ++k) ARCHON_CHECK(k % every != 7);
                });
                for (auto& t : ts) t.join();
            }
            put(vp::Ev("exit").i("x", x).i("rep", rep).b("thrown", p.exit != 0));
            { std::lock_guard lock(gm); finished.insert({ x, rep }); ++done; gcv.notify_all(); }
            if (p.exit == 1) throw Boom("planned");
            if (p.exit == 2) throw 42;
        };
        list.add(names.back(), __FILE__, 10 + long(i), func, tests[i].en ? (i % 2 ? &enabled : nullptr) : &disabled, tests[i].c);
    }

    std::vector<check::RandomSeed::value_type> words(6);
    for (std::size_t k = 0; k < 6; ++k) words[k] = check::RandomSeed::value_type(seedid * 1000 + long(k));
    check::TestConfig config;
    config.num_repetitions = reps;
    config.num_threads = req;
    config.shuffle = shuffle;
    config.test_list = &list;
    config.filter = &filter;
    config.reporter = &rec;
    config.random_seed = check::RandomSeed(words);
    config.rseed_rep_no_override = override_;
    config.test_file_base_dir = dir;
    config.log_file_base_dir = dir;
    config.logger = &log::Logger::get_null();
    check::TestRunner runner(std::locale::classic(), config);
    bool ok = runner.run();
    put(vp::Ev("return").b("ok", ok));
}

} // unnamed namespace

int main(int argc, char** argv)
{
    vp::Args args(argc, argv);
    vp::Trace trace(args.trace);
    g_trace = &trace;
    vp::Rng rng(args.seed);
    std::string dir = std::string(args.trace) + ".dir";
    std::filesystem::create_directories(dir);
    for (auto& s : args.scripts) {
        auto& r = s["run"];
        std::vector<T> tests;
        for (auto& t : r["tests"].a) tests.push_back({ t["c"].b, t["en"].b, t["inc"].b });
        std::vector<std::pair<int,int>> order;
        for (auto& e : s["order"].a) order.push_back({ int(e["x"].n), int(e["rep"].n) });
        episode(rng, dir, tests, int(r["reps"].n), int(r["req"].n), false, order, rng.chance(50) ? 0 : 40);
    }
    for (long k = 0; k < args.episodes; ++k) {
        int n = int(rng.below(9));
        std::vector<T> tests;
        int pc = int(rng.below(3)) * 50;
        for (int i = 0; i < n; ++i) tests.push_back({ rng.chance(pc), !rng.chance(12), !rng.chance(15) });
        int reps = rng.chance(5) ? 0 : int(rng.range(1, 3));
        episode(rng, dir, tests, reps, int(rng.below(6)), rng.chance(30), {}, int(rng.below(3)) * 30);
    }
    std::filesystem::remove_all(dir);
    return 0;
}
