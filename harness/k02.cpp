// Drives the selection and ordering of tests in archon::check
#include "common.hpp"
#include <deque>
#include <filesystem>
#include <thread>
#include <mutex>
#include <unistd.h>
#include <fcntl.h>
#include <archon/core/build_environment.hpp>
#include <archon/log.hpp>
#include <archon/check.hpp>
#include <archon/check/command.hpp>
#include <archon/check/test_runner.hpp>
#include <archon/check/reporter.hpp>
#include <archon/check/wildcard_filter.hpp>
#include <archon/check/pattern_based_test_order.hpp>

using namespace archon;
using vp::Ev;

namespace {

using Text = std::string;
struct T { Text name; bool en, c; };
using Begin = std::pair<int, int>;

std::string codes(const Text& s) { std::string o = "["; for (std::size_t i = 0; i < s.size(); ++i) { if (i) o += ','; o += std::to_string(int((unsigned char)s[i])); } return o + "]"; }
std::string codes(const std::vector<Text>& v) { std::string o = "["; for (std::size_t i = 0; i < v.size(); ++i) { if (i) o += ','; o += codes(v[i]); } return o + "]"; }
std::string json(const std::vector<T>& v)
{
    std::string o = "[";
    for (const T& t : v) {
        if (o.size() > 1) o += ',';
        o += "{\"name\":" + codes(t.name) + ",\"en\":" + (t.en ? "true" : "false") + ",\"c\":" + (t.c ? "true" : "false") + "}";
    }
    return o + "]";
}
std::string json(const std::vector<Begin>& v)
{
    std::string o = "[";
    for (auto& b : v) { if (o.size() > 1) o += ','; o += "[" + std::to_string(b.first) + "," + std::to_string(b.second) + "]"; }
    return o + "]";
}

Text name(vp::Rng& rng, int max)
{
    static const std::string alphabet = "abAB_1-.";
    long n = rng.range(1, max); Text s;
    int few = rng.chance(60) ? 2 : 8;
    for (long i = 0; i < n; ++i) s += alphabet[std::size_t(rng.below(std::uint64_t(few)))];
    return s;
}

// A pattern that often has to do with one of the names
Text pattern(vp::Rng& rng, const std::vector<T>& tests)
{
    Text s = tests.empty() || rng.chance(20) ? name(rng, 4) : rng.pick(tests).name;
    if (rng.chance(10)) return "*";
    if (rng.chance(70)) {
        std::size_t a = std::size_t(rng.below(s.size() + 1)), n = std::size_t(rng.below(s.size() - a + 1));
        s.replace(a, n, rng.chance(8) ? "**" : "*");
        if (rng.chance(25)) s += '*';
        if (rng.chance(15)) s.insert(0, "*");
        if (rng.chance(15)) s.insert(std::size_t(rng.below(s.size() + 1)), "*");
    }
    if (rng.chance(10) && s.size() > 1) s.pop_back();
    return s;
}

Text spaces(vp::Rng& rng, bool some) { return Text(std::size_t(some ? rng.chance(80) ? 1 : rng.range(2, 3) : rng.chance(85) ? 0 : rng.range(1, 2)), ' '); }

Text make_filter(vp::Rng& rng, const std::vector<T>& tests)
{
    std::vector<Text> words;
    if (rng.chance(65)) for (long n = rng.range(1, 3); n > 0; --n) words.push_back(pattern(rng, tests));
    if (rng.chance(55)) { words.push_back("-"); for (long n = rng.below(4); n > 0; --n) words.push_back(pattern(rng, tests)); }
    bool dash = false;
    Text s = spaces(rng, false);
    for (std::size_t i = 0; i < words.size(); ++i) {
        if (words[i] == "-") { if (dash) words[i] = "-*"; else dash = true; }
        if (i) s += spaces(rng, true);
        s += words[i];
    }
    return s + spaces(rng, false);
}

std::vector<Text> make_order(vp::Rng& rng, const std::vector<T>& tests)
{
    std::vector<Text> v;
    for (long n = rng.chance(20) ? 0 : rng.range(1, 5); n > 0; --n) v.push_back(rng.chance(3) ? "" : pattern(rng, tests));
    return v;
}

std::vector<T> make_tests(vp::Rng& rng, int max)
{
    std::vector<T> v; bool dup = rng.chance(5);
    for (long n = rng.range(0, max); n > 0; --n) {
        T t { name(rng, rng.chance(70) ? 4 : 9), !rng.chance(12), rng.chance(60) };
        bool has = false;
        for (auto& u : v) if (u.name == t.name) has = true;
        if (!has || dup) v.push_back(t);
    }
    return v;
}

bool disabled() { return false; }
bool enabled() { return true; }

struct Recorder: check::Reporter {
    std::vector<Begin> begins; std::vector<long long> summary;
    std::vector<std::pair<const std::string*, int>> names;
    void begin(const check::TestContext& c, log::Logger&) override
    {
        int x = 0;
        for (auto& p : names) if (*p.first == c.test_details.name) x = p.second;
        begins.push_back({ x, c.repetition_no });
        std::this_thread::yield();
    }
    void root_end(const check::RootContext&, const check::Summary& s) override
    {
        summary = { s.num_disabled_tests, s.num_excluded_tests, s.num_selected_tests, s.num_test_executions };
    }
};

std::vector<std::string_view> views(const std::vector<Text>& v) { return { v.begin(), v.end() }; }
// A buffer of its own, so that access beyond the end is found
std::unique_ptr<char[]> exact(const Text& s) { std::unique_ptr<char[]> p(new char[s.size()]); std::copy(s.begin(), s.end(), p.get()); return p; }

void probe(vp::Trace& tr, vp::Rng& rng, const std::vector<T>& tests, const Text& filter, const std::vector<Text>& order)
{
    auto buffer = exact(filter);
    check::WildcardFilter f(std::string_view(buffer.get(), filter.size()), rng.chance(50) ? std::locale::classic() : std::locale("C.UTF-8"));
    buffer.reset();
    std::vector<Text> names;
    for (auto& t : tests) names.push_back(t.name);
    for (int i = 0; i < 3; ++i) names.push_back(pattern(rng, tests));
    for (auto& n : names) {
        auto b = exact(n);
        check::TestDetails d { std::string_view(b.get(), n.size()), {} };
        tr.put(Ev("include").raw("filter", codes(filter)).raw("name", codes(n)).b("r", f.include(d)));
    }
    auto v = views(order);
    check::PatternBasedTestOrder o(core::Span<const std::string_view>(v.data(), v.size()), std::locale::classic());
    for (int i = 0; i < 4; ++i) {
        const Text& a = rng.pick(names); const Text& b = rng.pick(names);
        tr.put(Ev("less").raw("order", codes(order)).raw("a", codes(a)).raw("b", codes(b)).b("r", o.less({ a, {} }, { b, {} })));
    }
}

void run(vp::Trace& tr, vp::Rng& rng, const std::vector<T>& tests, const Text& filter, const std::vector<Text>& order, int reps, int threads, bool shuffle)
{
    check::TestList list; std::deque<std::string> names; Recorder rec;
    for (std::size_t i = 0; i < tests.size(); ++i) {
        names.push_back(tests[i].name);
        rec.names.push_back({ &names.back(), int(i) + 1 });
        list.add(names.back(), rng.chance(50) ? "/x/a.cpp" : "/x/b.cpp", long(i), [](check::TestContext&) {}, tests[i].en ? (i % 2 ? &enabled : nullptr) : &disabled, tests[i].c);
    }
    check::WildcardFilter f(filter);
    auto v = views(order);
    check::PatternBasedTestOrder o(core::Span<const std::string_view>(v.data(), v.size()));
    check::TestConfig config;
    config.num_repetitions = reps; config.num_threads = threads; config.shuffle = shuffle; config.test_list = &list;
    if (!filter.empty() || rng.chance(50)) config.filter = &f;
    if (!order.empty() || rng.chance(50)) config.test_order = &o;
    config.reporter = &rec; config.logger = &log::Logger::get_null();
    config.test_file_base_dir = "/tmp";
    bool error = false;
    try { check::TestRunner(std::locale::classic(), config).run(); } catch (std::runtime_error&) { error = true; }
    tr.put(Ev("run").raw("tests", json(tests)).raw("filter", codes(filter)).raw("order", codes(order)).i("reps", reps).i("threads", threads)
           .b("shuffle", shuffle).b("error", error).raw("begins", json(rec.begins)).seq("summary", rec.summary));
}

// The default list can only grow, so its tests are the same for a whole run of this program
std::deque<std::string> cmd_names; std::vector<T> cmd_tests; std::vector<Begin> cmd_begins; int cmd_bad = 0;

void command(vp::Trace& tr, vp::Rng& rng, const Text& filter, const std::vector<Text>& order)
{
    std::vector<std::string> args { "./prog" };
    int reps = 1; bool help = rng.chance(3);
    cmd_begins.clear(); cmd_bad = rng.chance(50) ? int(rng.range(1, long(cmd_tests.size()))) : 0;
    std::vector<int> what { 0, 1, 2 };
    if (help) what.push_back(3);
    if (rng.chance(20)) what.push_back(4);
    for (std::size_t i = what.size(); i > 1; --i) std::swap(what[i - 1], what[std::size_t(rng.below(i))]);
    for (int w : what) {
        switch (w) {
            case 0:
                if (filter.empty() && rng.chance(50)) break;
                if (rng.chance(40) || filter.empty()) args.push_back("--filter=" + filter);
                else if (rng.chance(50) || filter[0] == '-') args.push_back("-f" + filter);
                else { args.push_back("-f"); args.push_back(filter); }
                break;
            case 1: if (rng.chance(50)) { reps = int(rng.range(0, 3)); args.push_back("-n"); args.push_back(std::to_string(reps)); } break;
            case 2: args.push_back(rng.chance(50) ? "--num-threads=1" : "-t1"); break;
            case 3: args.push_back("--help"); break;
            case 4: args.push_back(rng.chance(50) ? "-p" : "--log-level=off"); break;
        }
    }
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    auto v = views(order);
    std::fflush(stdout);
    int saved = ::dup(1), null = ::open("/dev/null", O_WRONLY); ::dup2(null, 1);
    int status = check::command("Test", int(args.size()), argv.data(), core::BuildEnvironment::Params {}, core::Span<const std::string_view>(v.data(), v.size()), std::locale::classic());
    ::dup2(saved, 1); ::close(saved); ::close(null);
    tr.put(Ev("command").raw("tests", json(cmd_tests)).raw("filter", codes(filter)).raw("order", codes(order)).i("reps", reps).b("help", help)
           .raw("begins", json(cmd_begins)).i("bad", cmd_bad).i("status", status));
}

} // namespace

int main(int argc, char** argv)
{
    vp::Args a(argc, argv);
    vp::Rng rng(a.seed);
    vp::Trace tr(a.trace);
    auto text = [](const vp::J& j) { Text s; for (auto& c : j.a) s += char(c.n); return s; };
    for (const vp::J& j : a.scripts) {
        std::vector<T> tests; std::vector<Text> order;
        for (auto& t : j["tests"].a) tests.push_back({ text(t["name"]), t["en"].b, t["c"].b });
        for (auto& p : j["order"].a) order.push_back(text(p));
        Text filter = text(j["filter"]);
        run(tr, rng, tests, filter, order, 1, 1, false);
        if (rng.chance(10)) probe(tr, rng, tests, filter, order);
    }
    while (cmd_tests.size() < 14) {
        T t { name(rng, 4), !rng.chance(12), rng.chance(60) };
        bool has = false;
        for (auto& u : cmd_tests) if (u.name == t.name) has = true;
        if (has) continue;
        cmd_tests.push_back(t); cmd_names.push_back(t.name);
        int x = int(cmd_tests.size());
        check::TestList::get_default_list().add(cmd_names.back(), "/x/c.cpp", x, [x](check::TestContext& test_context) {
            cmd_begins.push_back({ x, test_context.repetition_no });
            ARCHON_CHECK(x != cmd_bad);
        }, t.en ? nullptr : &disabled, t.c);
    }
    for (long e = 0; e < a.episodes; ++e) {
        std::vector<T> tests = make_tests(rng, rng.chance(80) ? 8 : 20);
        Text filter = make_filter(rng, tests); std::vector<Text> order = make_order(rng, tests);
        run(tr, rng, tests, filter, order, rng.chance(60) ? 1 : int(rng.range(0, 3)), rng.chance(60) ? 1 : int(rng.range(2, 4)), rng.chance(15));
        if (rng.chance(40)) probe(tr, rng, tests, filter, order);
        if (rng.chance(15)) command(tr, rng, make_filter(rng, cmd_tests), make_order(rng, cmd_tests));
    }
}
