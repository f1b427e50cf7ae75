// Drives test runs in which things go wrong in known ways, and records what is reported about them.
#include "common.hpp"
#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <filesystem>
#include <fstream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <thread>
#include <archon/log.hpp>
#include <archon/log/stream_logger.hpp>
#include <archon/check.hpp>
#include <archon/check/test_runner.hpp>
#include <archon/check/reporter.hpp>
#include <archon/check/simple_reporter.hpp>
#include <archon/check/xml_reporter.hpp>
#include <archon/check/duplicating_reporter.hpp>
#include <archon/check/fail_context.hpp>
#include <archon/check/check_arg.hpp>
#include <archon/check/test_trail.hpp>
#include <archon/check/test_config.hpp>

using namespace archon;
using vp::Ev;

struct Boom: std::runtime_error { using std::runtime_error::runtime_error; };

namespace {

using Text = std::string;
vp::Trace* g_trace = nullptr;
std::mutex g_trace_mutex;
void put(const Ev& e) { std::lock_guard lock(g_trace_mutex); g_trace->put(e); }

Text quote(const Text& s) { Text o; vp::json_str(o, s); return o; }
Text quote(const std::vector<Text>& v) { Text o = "["; for (auto& s : v) { if (o.size() > 1) o += ','; o += quote(s); } return o + "]"; }
Text str(bool b) { return b ? "true" : "false"; }

struct Item {
    Text kind;  // check, throw, log, pass
    Text path; long line = 0;
    std::vector<Text> trail;
    Text form, macro;
    std::vector<Text> args, vals;
    long a = 0, b = 0, c = 0;
    std::vector<int> sa, sb;
    long index = 0; int variant = 0;
    Text json() const
    {
        return "{\"kind\":" + quote(kind) + ",\"path\":" + quote(path) + ",\"line\":" + std::to_string(line) + ",\"trail\":" + quote(trail) +
            ",\"form\":" + quote(form) + ",\"macro\":" + quote(macro) + ",\"args\":" + quote(args) + ",\"vals\":" + quote(vals) +
            ",\"index\":" + std::to_string(index) + "}";
    }
};

struct Plan { std::vector<Item> items; int bag = 0; };
struct T { Text name, path; long line; bool c = true, disabled = false, excluded = false; };
struct Turn { int x, rep; };

Text text(vp::Rng& rng, int max)
{
    static const Text plain = "abcXYZ019_ .,:;()[]{}#%+-=/|~^?!@$";
    static const Text special = "&<>'\"";
    Text s; long n = rng.below(max + 1); int often = int(rng.pick<int>({ 0, 10, 50 }));
    for (long i = 0; i < n; ++i) {
        const Text& from = rng.chance(often) ? special : plain;
        s += from[std::size_t(rng.below(long(from.size())))];
    }
    if (rng.chance(6)) s += rng.pick<Text>({ "&amp;", "]]>", "&lt;b&gt;", "<!--", "&#65;", "%s", "%%", "@n", "\\n" });
    return s;
}

Text trimmed_path(vp::Rng& rng)
{
    Text s = rng.pick<Text>({ "a.cpp", "src/b.cpp", "src/sub/c.cpp", "x/y.hpp", "/abs/d.cpp", "R&D/e.cpp", "q<int>.cpp", "it's/f.cpp", "say\"g\".cpp" });
    if (rng.chance(15)) s = "p" + std::to_string(rng.below(5)) + "/" + s;
    return s;
}

Item item(vp::Rng& rng, const std::vector<Text>& paths)
{
    Item it;
    it.kind = "check";
    it.path = rng.pick(paths);
    it.line = rng.chance(5) ? rng.below(2000000000) : rng.range(1, 900);
    for (long n = rng.chance(60) ? 0 : rng.range(1, 3); n > 0; --n) it.trail.push_back(rng.chance(30) ? std::to_string(rng.range(-5, 99)) : text(rng, 8));
    it.a = rng.range(-3, 9); it.b = rng.range(-3, 9); it.c = rng.range(-3, 9);
    it.variant = int(rng.below(16));
    auto num = [](long v) { return std::to_string(v); };
    auto arg = [&] { return text(rng, 7); };
    switch (rng.below(11)) {
        case 0: case 1:
            it.form = "cond"; it.macro = rng.chance(50) ? "ARCHON_CHECK" : arg(); it.args = { arg() };
            break;
        case 2: case 3: {
            it.form = "special"; it.macro = rng.chance(50) ? "MY_CHECK" : arg();
            switch (it.variant % 8) {
                case 0: it.args = { arg() }; it.vals = { num(it.a) }; break;
                case 1: it.args = { arg(), arg() }; it.vals = { num(it.a), num(it.b) }; it.b = it.a + 1; it.vals[1] = num(it.b); break;
                case 2: it.args = { arg(), arg() }; it.b = it.a; it.vals = { num(it.a), num(it.b) }; break;
                case 3: it.args = { arg(), arg() }; it.b = it.a - rng.range(0, 2); it.vals = { num(it.a), num(it.b) }; break;
                case 4: it.args = { arg(), arg(), arg() }; it.b = it.a + 3; it.c = rng.range(0, 3); it.vals = { num(it.a), num(it.b), num(it.c) }; break;
                case 5: it.args = { arg(), arg(), arg() }; it.b = it.a + 1; it.c = it.a + 4; it.vals = { num(it.a), num(it.b), num(it.c) }; break;
                case 6: it.args = { arg(), arg() }; it.vals = { num(it.a), "\"ab" + num(it.b) + "\"" }; break;
                case 7: it.args = { arg() }; it.vals = { "?" }; break;
            }
            break;
        }
        case 4:
            it.form = "special"; it.macro = "ARCHON_CHECK_COMPARE"; it.args = { arg(), arg(), arg() }; it.vals = { num(it.a), num(it.b), it.args[2] };
            it.variant = 100;
            break;
        case 5:
            it.form = "nothrown";
            it.variant = int(rng.below(3));
            it.macro = std::vector<Text> { "ARCHON_CHECK_THROW", "ARCHON_CHECK_THROW_EX", "ARCHON_CHECK_THROW_ANY" }[std::size_t(it.variant)];
            for (int k = 0; k < (it.variant == 0 ? 2 : it.variant == 1 ? 3 : 1); ++k) it.args.push_back(arg());
            break;
        case 6:
            it.form = "badthrown"; it.macro = "ARCHON_CHECK_THROW_EX"; it.args = { arg(), arg(), arg() };
            break;
        case 7: case 8: {
            bool cmp = rng.chance(40);
            it.macro = cmp ? "ARCHON_CHECK_COMPARE_SEQ" : "ARCHON_CHECK_EQUAL_SEQ";
            it.args = { arg(), arg() }; if (cmp) it.args.push_back(arg());
            it.variant = cmp;
            long n = rng.below(4);
            for (long k = 0; k < n; ++k) { int v = int(rng.below(50)); it.sa.push_back(v); it.sb.push_back(v); }
            it.index = n;
            switch (rng.below(3)) {
                case 0: { int v = int(rng.below(50)); it.sa.push_back(v); it.sb.push_back(v + 1); it.form = "mismatch"; it.vals = { num(v), num(v + 1) };
                          if (rng.chance(50)) it.sa.push_back(3); break; }
                case 1: { int v = int(rng.below(50)); it.sa.push_back(v); it.form = "longer"; it.vals = { num(v) }; if (rng.chance(50)) it.sa.push_back(3); break; }
                case 2: { int v = int(rng.below(50)); it.sb.push_back(v); it.form = "shorter"; it.vals = { num(v) }; if (rng.chance(50)) it.sb.push_back(3); break; }
            }
            break;
        }
        case 9: it.form = "plain"; it.args = { text(rng, rng.chance(10) ? 1500 : 20) }; break;
        case 10:
            it.kind = "log"; it.form = rng.pick<Text>({ "error", "warn", "info", "detail" }); it.args = { text(rng, 12) };
            break;
    }
    return it;
}

struct Thing { int v; };

void perform(check::TestContext& tc, const Item& it)
{
    const char* path = it.path.c_str();
    auto a = [&](std::size_t k) { return it.args[k].c_str(); };
    using check::CheckArg;
    if (it.kind == "log") {
        auto level = it.form == "error" ? log::LogLevel::error : it.form == "warn" ? log::LogLevel::warn : it.form == "info" ? log::LogLevel::info : log::LogLevel::detail;
        tc.logger.log(level, "%s", it.args[0]);
    }
    else if (it.form == "cond") tc.check_general_cond(false, it.path, it.line, it.macro, it.args[0]);
    else if (it.form == "special") {
        Text s = "ab" + std::to_string(it.b); Thing thing { 7 };
        switch (it.variant) {
            case 100: tc.check_compare(it.a, it.b, [](long, long) { return false; }, path, it.line, a(0), a(1), a(2)); break;
            case 0: case 8: tc.check_special_cond(false, it.path, it.line, it.macro, CheckArg(it.args[0], it.a)); break;
            case 1: tc.check_equal(it.a, it.b, it.macro, it.args[0], it.args[1], it.path, it.line); break;
            case 9: tc.check_greater(it.a, it.b, it.macro, it.args[0], it.args[1], it.path, it.line); break;
            case 2: tc.check_not_equal(it.a, it.b, it.macro, it.args[0], it.args[1], it.path, it.line); break;
            case 10: tc.check_not_less_equal(it.a, it.b, it.macro, it.args[0], it.args[1], it.path, it.line); break;
            case 3: tc.check_less(it.a, it.b, it.macro, it.args[0], it.args[1], it.path, it.line); break;
            case 11: tc.check_not_greater_equal(it.a, it.b, it.macro, it.args[0], it.args[1], it.path, it.line); break;
            case 4: tc.check_dist_less(it.a, it.b, it.c, it.macro, it.args[0], it.args[1], it.args[2], it.path, it.line); break;
            case 12: tc.check_dist_not_greater_equal(it.a, it.b, it.c, it.macro, it.args[0], it.args[1], it.args[2], it.path, it.line); break;
            case 5: tc.check_between(it.a, it.b, it.c, it.macro, it.args[0], it.args[1], it.args[2], it.path, it.line); break;
            case 13: tc.check_special_cond(false, it.path, it.line, it.macro, CheckArg(it.args[0], it.a), CheckArg(it.args[1], it.b), CheckArg(it.args[2], it.c)); break;
            case 6: case 14: tc.check_special_cond(false, it.path, it.line, it.macro, CheckArg(it.args[0], it.a), CheckArg(it.args[1], s)); break;
            case 7: case 15: tc.check_special_cond(false, it.path, it.line, it.macro, CheckArg(it.args[0], thing)); break;
        }
    }
    else if (it.form == "nothrown") {
        if (it.variant == 0) tc.check_throw_failed(path, it.line, a(0), a(1));
        else if (it.variant == 1) tc.check_throw_ex_failed(path, it.line, a(0), a(1), a(2));
        else tc.check_throw_any_failed(path, it.line, a(0));
    }
    else if (it.form == "badthrown") tc.check_throw_ex_cond_failed(path, it.line, a(0), a(1), a(2));
    else if (it.form == "threw") {
        Boom boom(it.vals.empty() ? "" : it.vals[1]);
        tc.check_nothrow_failed(path, it.line, a(0), it.vals.empty() ? nullptr : &boom);
    }
    else if (it.form == "plain") tc.check_failed({ it.path, it.line }, it.args[0]);
    else if (it.variant == 0) tc.check_equal_seq(it.sa, it.sb, path, it.line, a(0), a(1));
    else tc.check_compare_seq(it.sa, it.sb, [](int x, int y) { return x == y; }, path, it.line, a(0), a(1), a(2));
}

bool number(const Text& s) { return !s.empty() && s.find_first_not_of("-0123456789") == Text::npos && s.size() < 8; }

void below_trail(check::TestContext& tc, const Item& it, std::size_t k)
{
    if (k == it.trail.size()) { perform(tc, it); return; }
    // Some segments are given as values rather than as text
    if (number(it.trail[k]) && std::to_string(std::atol(it.trail[k].c_str())) == it.trail[k]) {
        check::TestContext& test_context_ = tc;
        ARCHON_TEST_TRAIL(test_context_, std::atol(it.trail[k].c_str()));
        below_trail(test_context, it, k + 1);
        return;
    }
    check::SubtestContext sub(tc, it.trail[k]);
    below_trail(sub, it, k + 1);
}

// ---- Reporters

struct Recorder: check::Reporter {
    int k; std::map<Text, int> index; std::function<void()> on_root_begin, on_root_end;
    void rec(const Text& c) { put(Ev("call").i("k", k).raw("c", c)); }
    Text where(const check::TestContext& c) { return ",\"x\":" + std::to_string(index.at(Text(c.test_details.name))) + ",\"rep\":" + std::to_string(c.repetition_no); }
    void root_begin(const check::RootContext&) override { if (on_root_begin) on_root_begin(); rec("{\"kind\":\"root_begin\"}"); }
    void thread_begin(const check::ThreadContext& c) override { rec("{\"kind\":\"thread_begin\",\"t\":" + std::to_string(c.thread_index) + "}"); }
    void begin(const check::TestContext& c, log::Logger&) override { rec("{\"kind\":\"begin\"" + where(c) + "}"); }
    void fail(const check::FailContext& c, std::string_view msg, log::Logger&) override
    {
        rec("{\"kind\":\"fail\"" + where(c.test_context) + ",\"path\":" + quote(Text(c.location.file_path)) + ",\"mapped\":" + quote(Text(c.mapped_file_path)) +
            ",\"line\":" + std::to_string(c.location.line_number) + ",\"msg\":" + quote(Text(msg)) + "}");
    }
    void end(const check::TestContext& c, double, log::Logger&) override { rec("{\"kind\":\"end\"" + where(c) + "}"); }
    void thread_end(const check::ThreadContext& c) override { rec("{\"kind\":\"thread_end\",\"t\":" + std::to_string(c.thread_index) + "}"); }
    void root_end(const check::RootContext&, const check::Summary&) override { if (on_root_end) on_root_end(); rec("{\"kind\":\"root_end\"}"); }
};

struct Mapper: check::SourcePathMapper {
    bool map(std::filesystem::path& p) const override { p = std::filesystem::path("M/" + p.string()); return true; }
};

struct NameFilter: check::Filter {
    std::set<Text> excluded;
    bool include(const check::TestDetails& d) const noexcept override { return !excluded.count(Text(d.name)); }
};

// ---- A strict reader of the part of XML that is used

struct Xml {
    Text name; std::vector<std::pair<Text, Text>> attr; std::vector<Xml> sub;
    bool has(const std::vector<Text>& names) const
    {
        if (attr.size() != names.size()) return false;
        for (std::size_t i = 0; i < names.size(); ++i) if (attr[i].first != names[i]) return false;
        return true;
    }
};
struct Bad {};
class XmlReader {
public:
    explicit XmlReader(const Text& t): t(t) {}
    Xml document()
    {
        lit("<?xml version=\"1.0\"?>"); ws();
        Xml x = element(); ws();
        if (p != t.size()) throw Bad();
        return x;
    }
private:
    const Text& t; std::size_t p = 0;
    char at() const { if (p >= t.size()) throw Bad(); return t[p]; }
    void ws() { while (p < t.size() && std::strchr(" \n\t\r", t[p])) ++p; }
    void lit(const char* s) { std::size_t n = std::strlen(s); if (t.compare(p, n, s) != 0) throw Bad(); p += n; }
    Text name() { std::size_t q = p; while (std::isalpha((unsigned char)at()) || at() == '-') ++p; if (p == q) throw Bad(); return t.substr(q, p - q); }
    Xml element()
    {
        lit("<"); Xml x; x.name = name();
        for (;;) {
            std::size_t q = p; ws();
            if (at() == '/') { lit("/>"); return x; }
            if (at() == '>') { ++p; break; }
            if (p == q) throw Bad();
            Text n = name(); lit("=\"");
            std::size_t e = t.find('"', p); if (e == Text::npos) throw Bad();
            x.attr.emplace_back(n, t.substr(p, e - p)); p = e + 1;
        }
        for (;;) {
            ws();
            if (t.compare(p, 2, "</") == 0) { p += 2; lit(x.name.c_str()); lit(">"); return x; }
            x.sub.push_back(element());
        }
    }
};

bool is_time(const Text& s) { return !s.empty() && s.find_first_not_of("0123456789.e-+") == Text::npos; }

void xml_event(const Text& doc)
{
    bool ok = true; Text numbers = "[]", tests = "[]";
    try {
        Xml x = XmlReader(doc).document();
        if (x.name != "unittest-results" || !x.has({ "tests", "failedtests", "checks", "failures", "time" }) || !is_time(x.attr[4].second)) throw Bad();
        numbers = quote(std::vector<Text> { x.attr[0].second, x.attr[1].second, x.attr[2].second, x.attr[3].second });
        tests = "[";
        for (auto& y : x.sub) {
            if (y.name != "test" || !y.has({ "suite", "name", "time" }) || !is_time(y.attr[2].second)) throw Bad();
            std::vector<Text> f;
            for (auto& z : y.sub) { if (z.name != "failure" || !z.has({ "message" }) || !z.sub.empty()) throw Bad(); f.push_back(z.attr[0].second); }
            if (tests.size() > 1) tests += ',';
            tests += "{\"suite\":" + quote(y.attr[0].second) + ",\"name\":" + quote(y.attr[1].second) + ",\"failures\":" + quote(f) + "}";
        }
        tests += "]";
    }
    catch (Bad&) { ok = false; }
    put(Ev("xml").b("ok", ok).raw("numbers", numbers).raw("tests", tests));
}

std::vector<Text> lines(const Text& s)
{
    std::vector<Text> v; std::size_t p = 0;
    while (p < s.size()) { std::size_t q = s.find('\n', p); if (q == Text::npos) { v.push_back(s.substr(p) + " (unfinished)"); break; } v.push_back(s.substr(p, q - p)); p = q + 1; }
    return v;
}

bool off() { return false; }
bool on() { return true; }

using Plans = std::map<std::pair<int, int>, Plan>;

void episode(vp::Rng& rng, const Text& dir, const std::vector<T>& tests, int reps, int req, bool mapper, const Plans& plans, const std::vector<Turn>& turns)
{
    bool progress = rng.chance(30), files = rng.chance(25);
    int inner = int(rng.below(3)); // off, warn, all
    Text suite = rng.chance(50) ? "default" : text(rng, 8);
    std::vector<T> sel; int disabled = 0, excluded = 0; long concur = 0;
    for (auto& t : tests) { if (t.disabled) ++disabled; else if (t.excluded) ++excluded; else { sel.push_back(t); if (t.c && req > 1) ++concur; } }
    long most = concur * reps; if (most == 0 && !sel.empty() && reps > 0) most = 1;
    int threads = int(std::min<long>(req, most));
    Text ts = "[";
    for (auto& t : sel) { if (ts.size() > 1) ts += ','; ts += "{\"name\":" + quote(t.name) + ",\"path\":" + quote(t.path) + ",\"line\":" + std::to_string(t.line) + "}"; }
    ts += "]";
    put(Ev("reset").raw("setup", "{\"tests\":" + ts + ",\"reps\":" + std::to_string(reps) + ",\"threads\":" + std::to_string(threads) + ",\"progress\":" + str(progress) +
        ",\"files\":" + str(files) + ",\"mapper\":" + str(mapper) + ",\"suite\":" + quote(suite) + ",\"disabled\":" + std::to_string(disabled) +
        ",\"excluded\":" + std::to_string(excluded) + ",\"inner\":" + quote(inner == 0 ? "off" : inner == 1 ? "warn" : "all") + "}"));

    std::mutex gm; std::condition_variable gcv; std::size_t turn = 0; bool free = turns.empty();
    auto wait_turn = [&](int x, int rep) {
        if (free) return;
        std::unique_lock lock(gm);
        if (!gcv.wait_for(lock, std::chrono::seconds(5), [&] { return free || (turn < turns.size() && turns[turn].x == x && turns[turn].rep == rep); })) free = true;
    };
    auto end_turn = [&] { std::lock_guard lock(gm); ++turn; gcv.notify_all(); };

    check::TestList list;
    Recorder rec_1, rec_2; rec_1.k = 1; rec_2.k = 2;
    NameFilter filter;
    int no = 0;
    Mapper the_mapper;
    for (auto& t : tests) {
        if (!t.disabled && !t.excluded) rec_1.index[t.name] = rec_2.index[t.name] = ++no;
        if (t.excluded) filter.excluded.insert(t.name);
        int x = no;
        auto func = [&, x](check::TestContext& test_context) {
            int rep = test_context.repetition_no;
            auto pi = plans.find({ x, rep });
            static const Plan none;
            const Plan& p = pi == plans.end() ? none : pi->second;
            put(Ev("enter").i("t", test_context.thread_context.thread_index + 1).i("x", x).i("rep", rep).s("path", test_context.mapped_file_path).b("bag", p.bag > 0));
            auto doit = [&](const Item& it) {
                if (it.kind == "pass") {
                    put(Ev("passed").i("x", x).i("rep", rep).i("n", it.a));
                    for (long k = 0; k < it.a; ++k) { if (k % 2) test_context.check_succeeded(); else test_context.check_general_cond(true, it.path, it.line, "M", "t"); }
                    return;
                }
                put(Ev("did").i("x", x).i("rep", rep).raw("f", it.json()));
                if (it.kind == "throw") {
                    if (it.form == "exception") throw Boom(it.vals[1]);
                    throw 42;
                }
                below_trail(test_context, it, 0);
            };
            if (p.bag) {
                std::vector<std::thread> ts;
                std::atomic<int> ready = 0;
                for (int j = 0; j < p.bag; ++j) ts.emplace_back([&, j] {
                    ++ready; while (ready < p.bag) std::this_thread::yield();
                    for (std::size_t k = std::size_t(j); k < p.items.size(); k += std::size_t(p.bag)) doit(p.items[k]);
                });
                for (auto& t : ts) t.join();
                return;
            }
            for (auto& it : p.items) {
                wait_turn(x, rep);
                struct Guard { decltype(end_turn)& f; ~Guard() { f(); } } guard { end_turn };
                // The turn ends when the failure has been reported, except for exceptions, which are reported later
                doit(it);
            }
        };
        list.add(t.name, t.path.c_str(), t.line, func, t.disabled ? &off : rng.chance(30) ? &on : nullptr, t.c);
    }

    std::ostringstream out;
    log::StreamLogger logger(out);
    std::ostringstream xml_out;
    check::SimpleReporter simple(progress);
    check::XmlReporter xml_1(xml_out, suite), xml_2(xml_out);
    check::XmlReporter& xml = suite == "default" ? xml_2 : xml_1;
    check::DuplicatingReporter pair(xml, rec_2);
    check::DuplicatingReporter flat({ &rec_1, &simple, &xml, &rec_2 });
    check::DuplicatingReporter nested({ &rec_1, &simple, &pair });
    std::size_t pos_head = 0, pos_tail = 0;
    rec_2.on_root_begin = [&] { pos_head = out.str().size(); };
    rec_1.on_root_end = [&] { pos_tail = out.str().size(); };

    check::TestConfig config;
    config.num_repetitions = reps;
    config.num_threads = req;
    config.test_list = &list;
    config.filter = &filter;
    config.reporter = rng.chance(50) ? &flat : &nested;
    config.test_file_base_dir = dir;
    config.log_file_base_dir = dir;
    config.logger = &logger;
    config.log_to_files = files;
    bool pad = rng.chance(50);
    config.log_path_template = pad ? "log/@N.log" : "log/t@n.log";
    config.inner_log_level_limit = inner == 0 ? log::LogLevel::off : inner == 1 ? log::LogLevel::warn : log::LogLevel::all;
    if (mapper) config.source_path_mapper = &the_mapper;
    std::vector<Text> paths;
    for (int i = 1; i <= threads; ++i) {
        Text n = std::to_string(i);
        if (pad) n = Text(std::to_string(threads).size() - n.size(), '0') + n + ".log"; else n = "t" + n + ".log";
        paths.push_back(dir + "/log/" + n);
    }
    bool ok = false;
    {
        check::TestRunner runner(std::locale::classic(), config);
        ok = runner.run();
    }
    put(Ev("ran").b("ok", ok).strs("paths", paths));
    Text all = out.str();
    for (auto& s : lines(all.substr(0, pos_head))) put(Ev("head").s("text", s));
    for (auto& s : lines(all.substr(pos_head, pos_tail - pos_head))) put(Ev("line").i("t", 0).s("text", s));
    if (files) {
        for (int i = 0; i < threads; ++i) {
            std::ifstream in(paths[std::size_t(i)], std::ios::binary); std::stringstream ss; ss << in.rdbuf();
            for (auto& s : lines(ss.str())) put(Ev("line").i("t", i + 1).s("text", s));
        }
        std::filesystem::remove_all(dir + "/log");
    }
    bool time = false;
    for (auto& s : lines(all.substr(pos_tail))) {
        if (!time && s.compare(0, 11, "Test time: ") == 0 && s.size() > 11) { time = true; continue; }
        put(Ev("tail").s("text", s));
    }
    if (!time) put(Ev("tail").s("text", "no time"));
    xml_event(xml_out.str());
}

void random_episode(vp::Rng& rng, const Text& dir)
{
    int n = rng.chance(5) ? 0 : int(rng.range(1, 5));
    int reps = rng.chance(60) ? 1 : int(rng.range(1, 3));
    int req = rng.chance(30) ? 1 : rng.chance(10) ? 12 : int(rng.range(1, 5));
    std::vector<Text> paths; for (long k = rng.range(1, 4); k > 0; --k) paths.push_back(trimmed_path(rng));
    std::vector<T> tests; std::set<Text> names; Plans plans;
    int pc = int(rng.pick<int>({ 0, 50, 100, 100 }));
    bool quiet = rng.chance(15);
    if (rng.chance(4)) { n = 11; pc = 100; reps = 2; req = 12; }
    int x = 0;
    for (int i = 0; i < n; ++i) {
        T t; do { t.name = "T" + text(rng, 6); } while (!names.insert(t.name).second);
        t.path = rng.pick(paths); t.line = rng.range(1, 500); t.c = rng.chance(pc); t.disabled = rng.chance(8); t.excluded = !t.disabled && rng.chance(8);
        tests.push_back(t);
        if (t.disabled || t.excluded) continue;
        ++x;
        for (int r = 1; r <= reps; ++r) {
            Plan p;
            if (!quiet && rng.chance(8)) {
                p.bag = int(rng.range(2, 4));
                long m = rng.range(2, 24);
                for (long k = 0; k < m; ++k) { Item it; do { it = item(rng, paths); } while (it.kind == "log" || it.form == "plain"); it.line = 10000 + k; p.items.push_back(it); }
            }
            else {
                long m = rng.below(5);
                for (long k = 0; k < m; ++k) {
                    Item it = item(rng, paths);
                    if (quiet ? it.kind != "log" : rng.chance(30)) { it = Item(); it.kind = "pass"; it.a = rng.range(1, 5); it.path = t.path; it.line = 5; }
                    p.items.push_back(it);
                }
                if (!quiet && rng.chance(12)) {
                    Item it; it.kind = "throw"; it.form = rng.chance(70) ? "exception" : "unknown";
                    if (it.form == "exception") it.vals = { "Boom", text(rng, rng.chance(10) ? 1200 : 12) };
                    p.items.push_back(it);
                }
            }
            plans[{ x, r }] = p;
        }
    }
    episode(rng, dir, tests, reps, req, rng.chance(40), plans, {});
}

void script(vp::Rng& rng, const Text& dir, const vp::J& s)
{
    int n = int(s["tests"].n), reps = int(s["reps"].n), threads = int(s["threads"].n);
    std::vector<T> tests;
    for (int i = 1; i <= n; ++i) { T t; t.name = "T" + std::to_string(i); t.path = i % 2 ? "b" : "a"; t.line = i; tests.push_back(t); }
    Plans plans; std::vector<Turn> turns;
    for (auto& o : s["order"].a) {
        int x = int(o["x"].n), rep = int(o["rep"].n);
        Item it; it.line = 7;
        if (o["path"].s.empty()) { it.kind = "throw"; it.form = "exception"; it.vals = { "Boom", "e" }; }
        else { it.kind = "check"; it.form = "cond"; it.macro = "C"; it.args = { "m" }; it.path = o["path"].s; }
        plans[{ x, rep }].items.push_back(it);
        turns.push_back({ x, rep });
    }
    episode(rng, dir, tests, reps, threads, s["mapper"].b, plans, turns);
}

} // unnamed namespace

int main(int argc, char** argv)
{
    vp::Args args(argc, argv);
    vp::Trace trace(args.trace);
    g_trace = &trace;
    vp::Rng rng(args.seed);
    Text dir = Text(args.trace) + ".dir";
    std::filesystem::create_directories(dir);
    if (args.steps < 0) { // Only a check that nothing is thrown
        int k = int(-1 - args.steps);
        {
            Item it; it.kind = "check"; it.form = "threw"; it.macro = "ARCHON_CHECK_NOTHROW"; it.path = "a.cpp"; it.line = 3; it.args = { "f()" };
            if (k == 0) it.vals = { "Boom", "bad" };
            T t; t.name = "T"; t.path = "a.cpp"; t.line = 1;
            Plans plans; plans[{ 1, 1 }].items = { it };
            episode(rng, dir, { t }, 1, 1, false, plans, {});
        }
    }
    else {
        for (auto& s : args.scripts) script(rng, dir, s);
        for (long k = 0; k < args.episodes; ++k) random_episode(rng, dir);
    }
    std::filesystem::remove_all(dir);
    return 0;
}
