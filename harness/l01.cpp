// Builds loggers on top of loggers, logs on them, changes limits, and records what arrives at each root.
#include "common.hpp"
#include <memory>
#include <array>
#include <sstream>
#include <unistd.h>
#include <archon/core/file.hpp>
#include <archon/core/string.hpp>
#include <archon/log.hpp>
#include <archon/log/logger.hpp>
#include <archon/log/stream_logger.hpp>
#include <archon/log/limit_logger.hpp>
#include <archon/log/prefix_logger.hpp>
#include <archon/log/channel_logger.hpp>
#include <archon/log/duplicating_logger.hpp>
#include <archon/log/timestamp_logger.hpp>
#include <archon/log/encoding_logger.hpp>
#include <archon/log/jail_logger.hpp>

using namespace archon;
using vp::Ev;

static std::string dir;

template<class C> std::basic_string<C> wid(std::string_view s) { return std::basic_string<C>(s.begin(), s.end()); }
template<class C> std::string nar(std::basic_string_view<C> s) { std::string r; for (C c : s) r += (c == C(27) ? '^' : char(c)); return r; }

using Name = std::string;
static std::string jname(std::string_view n) { std::string r = "["; for (std::size_t i = 0; i < n.size(); ++i) { if (i) r += ','; vp::json_str(r, n.substr(i, 1)); } return r + "]"; }

template<class C> class Custom final : public log::BasicRootLogger<C> {
public:
    std::vector<std::string> got;
    Custom(): log::BasicRootLogger<C>(std::locale::classic()) {}
protected:
    void root_log(std::basic_string_view<C> m) override { got.push_back(nar<C>(m)); }
};

struct RootRec {
    std::string kind; bool color = false; bool w = false;
    Custom<char>* c = nullptr; Custom<wchar_t>* wc = nullptr;
    std::unique_ptr<std::ostringstream> s; std::unique_ptr<std::wostringstream> ws;
    std::string path; std::unique_ptr<core::File> file; std::size_t seen = 0;
    std::unique_ptr<log::Logger> keep; std::unique_ptr<log::WideLogger> wkeep;

    std::string take()
    {
        std::string t;
        if (kind == "stream" && !w) { t = s->str(); s->str(""); }
        else if (kind == "stream") { t = nar<wchar_t>(ws->str()); ws->str(L""); }
        else if (kind == "file") {
            std::ifstream in(path, std::ios::binary); std::string all((std::istreambuf_iterator<char>(in)), {});
            t = nar<char>(std::string_view(all).substr(std::min(seen, all.size()))); seen = all.size();
        }
        return t;
    }
};

struct Node {
    bool w = false;
    std::unique_ptr<log::Logger> keep; std::unique_ptr<log::WideLogger> wkeep;
    log::Logger* n = nullptr; log::WideLogger* wn = nullptr;
    log::LimitLogger* lim = nullptr; log::WideLimitLogger* wlim = nullptr;
    int id = 0; bool fixed = false;
    std::string sel() { return std::string(w ? wn->get_channel().get_name() : n->get_channel().get_name()); }
    template<class C> auto& as() { if constexpr (std::is_same_v<C, char>) return *n; else return *wn; }
    template<class C> void set(std::unique_ptr<log::BasicLogger<C>> p)
    {
        if constexpr (std::is_same_v<C, char>) { w = false; keep = std::move(p); n = keep.get(); }
        else { w = true; wkeep = std::move(p); wn = wkeep.get(); }
    }
};

struct RuleRec { Name n; int t; Name c; };

struct Make {
    std::string k; int b = 0; Name c; std::string p; Name pat; int level = 0; std::vector<RuleRec> rules; int form = 0;
};

struct World {
    vp::Rng& rng; vp::Trace& tr;
    std::vector<RootRec> roots;
    std::vector<std::unique_ptr<Node>> nodes;
    int lims = 2;

    World(vp::Rng& r, vp::Trace& t): rng(r), tr(t) {}
    ~World() { while (!nodes.empty()) nodes.pop_back(); for (auto& r : roots) { r.keep.reset(); r.wkeep.reset(); if (!r.path.empty()) ::unlink(r.path.c_str()); } }

    template<class C> void add_root(const std::string& kind)
    {
        RootRec r; r.kind = kind; r.w = !std::is_same_v<C, char>;
        std::unique_ptr<log::BasicLogger<C>> lg; log::BasicLogger<C>* ptr = nullptr;
        if (kind == "custom") {
            auto c = std::make_unique<Custom<C>>();
            if constexpr (std::is_same_v<C, char>) r.c = c.get(); else r.wc = c.get();
            lg = std::move(c);
        }
        else if (kind == "stream") {
            if constexpr (std::is_same_v<C, char>) { r.s = std::make_unique<std::ostringstream>(); r.s->imbue(std::locale::classic()); lg = std::make_unique<log::StreamLogger>(*r.s); }
            else { r.ws = std::make_unique<std::wostringstream>(); r.ws->imbue(std::locale::classic()); lg = std::make_unique<log::WideStreamLogger>(*r.ws); }
        }
        else if (kind == "file") {
            r.path = dir + "/log" + std::to_string(roots.size());
            ::unlink(r.path.c_str());
            using FL = log::BasicFileLogger<C>; using TL = log::BasicTimestampFileLogger<C>;
            // Only where the locale is known to have an escape character can there be colors
            bool utf8 = rng.chance(60), yes = rng.chance(50);
            std::locale loc = utf8 ? std::locale("C.UTF-8") : std::locale::classic();
            r.color = yes && utf8;
            if (rng.chance(50)) r.file = std::make_unique<core::File>(core::FilesystemPathRef(r.path), core::File::Mode::write);
            if (rng.chance(70)) {
                typename FL::Config cfg; cfg.colorize = yes ? FL::Colorize::yes : rng.chance(50) ? FL::Colorize::no : FL::Colorize::detect;
                if (r.file) lg = std::make_unique<FL>(*r.file, loc, cfg); else lg = std::make_unique<FL>(core::FilesystemPathRef(r.path), loc, cfg);
            }
            else {
                r.color = false;
                if (r.file) lg = std::make_unique<FL>(*r.file, loc); else lg = std::make_unique<FL>(core::FilesystemPathRef(r.path), loc);
            }
            (void)sizeof(TL);
        }
        else {
            if (rng.chance(40)) ptr = &log::BasicLogger<C>::get_null();
            else if (rng.chance(50)) ptr = &log::BasicLogger<C>::or_null(nullptr);
            else lg = std::make_unique<log::BasicNullLogger<C>>(std::locale::classic());
        }
        if (lg) ptr = lg.get();
        auto nd = std::make_unique<Node>(); nd->w = r.w;
        if constexpr (std::is_same_v<C, char>) { nd->n = ptr; r.keep = std::move(lg); } else { nd->wn = ptr; r.wkeep = std::move(lg); }
        roots.push_back(std::move(r)); nodes.push_back(std::move(nd));
    }

    void put_reset()
    {
        std::string s = "[";
        for (std::size_t i = 0; i < roots.size(); ++i) { if (i) s += ','; s += "{\"k\":\"" + roots[i].kind + "\",\"color\":" + (roots[i].color ? "true" : "false") + "}"; }
        tr.put(Ev("reset").raw("roots", s + "]"));
    }

    // The names and prefixes given are gone, and written over, when construction is done
    template<class C> std::unique_ptr<Node> construct(const Make& m)
    {
        using L = log::BasicLogger<C>;
        auto nd = std::make_unique<Node>();
        Node& b = *nodes[std::size_t(m.b)]; L& base = b.as<C>();
        std::unique_ptr<L> r;
        if (m.k == "copy") { r = std::make_unique<L>(base); }
        else if (m.k == "select") { r = std::make_unique<L>(base, m.c); }
        else if (m.k == "prefix") {
            bool same = (m.c == b.sel()) && m.form % 2 == 0;
            std::basic_string<C> p = wid<C>(m.p);
            using P = log::BasicPrefixLogger<C>;
            switch (m.form / 2 % 4) {
                case 0: r = same ? std::make_unique<P>(base, m.p.c_str()) : std::make_unique<P>(base, m.p.c_str(), m.c); break;
                case 1: r = same ? std::make_unique<P>(base, std::basic_string_view<C>(p)) : std::make_unique<P>(base, std::basic_string_view<C>(p), m.c); break;
                case 2: r = same ? std::make_unique<P>(base, std::move(p)) : std::make_unique<P>(base, std::move(p), m.c); break;
                default: {
                    using T = log::BasicTimestampLogger<C>;
                    if (!same || m.p.empty()) { r = std::make_unique<P>(base, std::move(p), m.c); break; }
                    typename T::Config cfg; cfg.format = std::string_view(m_formats.emplace_back(std::make_unique<std::string>(m.p))->c_str(), m.p.size()); cfg.utc_time = m.form % 3 == 0;
                    r = std::make_unique<T>(base, cfg);
                }
            }
            std::fill(p.begin(), p.end(), C('!'));
        }
        else if (m.k == "limit") {
            auto l = (m.pat == "*" && m.form % 2) ? std::make_unique<log::BasicLimitLogger<C>>(base) : std::make_unique<log::BasicLimitLogger<C>>(base, m.pat);
            if constexpr (std::is_same_v<C, char>) nd->lim = l.get(); else nd->wlim = l.get();
            r = std::move(l);
        }
        else if (m.k == "fixed") {
            nd->fixed = true;
            r = (m.pat == "*" && m.form % 2) ? std::make_unique<log::BasicLimitLogger<C>>(base, log::LogLevel(m.level)) : std::make_unique<log::BasicLimitLogger<C>>(base, log::LogLevel(m.level), m.pat);
        }
        else if (m.k == "channel") {
            using X = log::BasicChannelLogger<C>;
            auto target = [&](const RuleRec& x) -> L& { return nodes[std::size_t(x.t)]->as<C>(); };
            if (m.rules.size() == 1 && m.form % 2 && m.rules[0].c == nodes[std::size_t(m.rules[0].t)]->sel()) r = std::make_unique<X>(base, m.rules[0].n, target(m.rules[0]));
            else {
                std::vector<typename X::Rule> rs;
                for (auto& x : m.rules) { if (m.form % 3 == 0 && x.c == nodes[std::size_t(x.t)]->sel()) rs.emplace_back(x.n, target(x)); else rs.emplace_back(x.n, target(x), x.c); }
                r = std::make_unique<X>(base, core::Span<const typename X::Rule>(rs));
            }
        }
        else if (m.k == "dup") {
            using X = log::BasicDuplicatingLogger<C>;
            auto target = [&](const RuleRec& x) -> L& { return nodes[std::size_t(x.t)]->as<C>(); };
            bool one = m.rules.size() == 1 && m.rules[0].c == nodes[std::size_t(m.rules[0].t)]->sel();
            if (one && m.form % 3 == 1 && m.rules[0].n == b.sel()) r = std::make_unique<X>(base, target(m.rules[0]));
            else if (one && m.form % 3 == 2) r = std::make_unique<X>(base, m.rules[0].n, target(m.rules[0]));
            else {
                std::vector<typename X::Rule> rs;
                for (auto& x : m.rules) { if (m.form % 2 == 0 && x.c == nodes[std::size_t(x.t)]->sel()) rs.emplace_back(x.n, target(x)); else rs.emplace_back(x.n, target(x), x.c); }
                r = std::make_unique<X>(base, core::Span<const typename X::Rule>(rs));
            }
        }
        else if (m.k == "jail") {
            if (m.c == b.sel() && m.form % 2) r = std::make_unique<log::BasicJailLogger<C>>(base); else r = std::make_unique<log::BasicJailLogger<C>>(base, m.c);
        }
        else if constexpr (std::is_same_v<C, char>) {
            if (m.k == "enc") { r = std::make_unique<log::EncodingLogger>(base); }
            else if (m.k == "bridge") { nd->set<wchar_t>(std::make_unique<log::WideEncodingLogger>(base)); return nd; }
        }
        nd->set<C>(std::move(r));
        return nd;
    }
    std::vector<std::unique_ptr<std::string>> m_formats;

    bool make(const Make& m)
    {
        std::unique_ptr<Node> nd; bool ok = true;
        try {
            auto copy = std::make_unique<Make>(m); // Strings that are gone afterwards
            nd = nodes[std::size_t(m.b)]->w ? construct<wchar_t>(*copy) : construct<char>(*copy);
        }
        catch (const std::invalid_argument&) { ok = false; }
        std::string rs = "[";
        for (std::size_t i = 0; i < m.rules.size(); ++i) { if (i) rs += ','; rs += "{\"n\":" + jname(m.rules[i].n) + ",\"t\":" + std::to_string(m.rules[i].t + 1) + ",\"c\":" + jname(m.rules[i].c) + "}"; }
        tr.put(Ev("make").s("k", m.k).i("b", m.b + 1).raw("c", jname(m.c)).s("p", m.p).raw("pat", jname(m.pat)).i("level", m.level).raw("rules", rs + "]").b("ok", ok));
        if (ok) { if (m.k == "limit" || m.k == "fixed") nd->id = ++lims; nodes.push_back(std::move(nd)); }
        return ok;
    }

    void log(int l, int level, const std::vector<std::string>& lines, int form)
    {
        Node& nd = *nodes[std::size_t(l)];
        std::string text; for (std::size_t i = 0; i < lines.size(); ++i) { if (i) text += '\n'; text += lines[i]; }
        for (auto& r : roots) { if (r.c) r.c->got.clear(); if (r.wc) r.wc->got.clear(); }
        auto go = [&]<class C>(log::BasicLogger<C>& lg) {
            std::basic_string<C> t = wid<C>(text), fmt = wid<C>("%s");
            std::basic_string_view<C> fv = fmt;
            log::LogLevel lv = log::LogLevel(level);
            bool plain = text.find('%') == std::string::npos;
            std::size_t cut = text.size() / 2; std::basic_string<C> a = t.substr(0, cut), z = t.substr(cut), two = wid<C>("%s%s");
            auto by_name = [&](auto f, const auto&... ps) {
                switch (lv) {
                    case log::LogLevel::fatal: lg.fatal(f, ps...); break;
                    case log::LogLevel::error: lg.error(f, ps...); break;
                    case log::LogLevel::warn: lg.warn(f, ps...); break;
                    case log::LogLevel::info: lg.info(f, ps...); break;
                    case log::LogLevel::detail: lg.detail(f, ps...); break;
                    case log::LogLevel::debug: lg.debug(f, ps...); break;
                    default: lg.trace(f, ps...);
                }
            };
            switch (form % 8) {
                case 0: lg.log(lv, "%s", t); break;
                case 1: if (plain) lg.log(lv, text.c_str()); else lg.log(lv, "%s", t); break;
                case 2: lg.log(lv, fv, t); break;
                case 3: if (plain) lg.log(lv, std::basic_string_view<C>(t)); else lg.log(lv, fv, t); break;
                case 4: by_name("%s", t); break;
                case 5: if (plain) by_name(text.c_str()); else by_name("%s%s", a, z); break;
                case 6: by_name(fv, t); break;
                default: by_name(std::basic_string_view<C>(two), a, z);
            }
        };
        if (nd.w) go(*nd.wn); else go(*nd.n);
        std::string out = "[";
        for (std::size_t i = 0; i < roots.size(); ++i) {
            if (i) out += ',';
            out += '[';
            std::vector<std::string> got;
            auto& r = roots[i];
            if (r.c) got = r.c->got; else if (r.wc) got = r.wc->got;
            else { // Lines
                std::string t = r.take(); std::size_t p = 0;
                while (p < t.size()) { auto e = t.find('\n', p); e = e == std::string::npos ? t.size() : e + 1; got.push_back(t.substr(p, e - p)); p = e; }
            }
            for (std::size_t k = 0; k < got.size(); ++k) { if (k) out += ','; vp::json_str(out, got[k]); }
            out += ']';
        }
        tr.put(Ev("log").i("l", l + 1).i("level", level).strs("lines", lines).raw("out", out + "]"));
    }

    void query(int l)
    {
        Node& nd = *nodes[std::size_t(l)];
        auto go = [&]<class C>(log::BasicLogger<C>& lg) {
            std::string will = "["; for (int v = 1; v <= 8; ++v) { if (v > 1) will += ','; will += lg.will_log(log::LogLevel(v)) ? "true" : "false"; }
            std::string ch = "["; bool first = true;
            for (auto& c : lg.get_channel_map().get_channels()) {
                if (!first) ch += ','; first = false; ch += jname(c.get_name());
                if (&lg.find_channel(c.get_name()) != &c) { std::printf("DRIVER-VIOLATION find_channel() finds another channel\n"); std::exit(1); }
            }
            tr.put(Ev("query").i("l", l + 1).i("limit", int(lg.get_log_level_limit())).raw("will", will + "]").raw("sel", jname(lg.get_channel().get_name())).raw("chans", ch + "]"));
        };
        if (nd.w) go(*nd.wn); else go(*nd.n);
    }

    void set(int i, int level)
    {
        Node& nd = *nodes[std::size_t(i)];
        if (nd.lim) nd.lim->set_log_level_limit(log::LogLevel(level)); else if (nd.wlim) nd.wlim->set_log_level_limit(log::LogLevel(level)); else return;
        tr.put(Ev("set").i("id", nd.id).i("level", level));
    }
};

static Name channel_of(vp::Rng& rng, Node& nd)
{
    std::vector<Name> v;
    if (nd.w) for (auto& c : nd.wn->get_channel_map().get_channels()) v.emplace_back(c.get_name());
    else for (auto& c : nd.n->get_channel_map().get_channels()) v.emplace_back(c.get_name());
    static const std::vector<Name> any { "", "a", "b", "ab", "x", "net", "net.in" };
    return rng.chance(93) ? rng.pick(v) : rng.pick(any);
}

static std::vector<std::string> lines_of(vp::Rng& rng)
{
    static const std::vector<std::string> words { "", "foo", "bar baz", " x", "y ", "7%", "%s", "WARNING: ", "a\tb", "-" };
    std::vector<std::string> v;
    long n = rng.chance(70) ? 1 : rng.range(1, 4);
    for (long i = 0; i < n; ++i) {
        std::string s = rng.pick(words); if (rng.chance(30)) s += rng.pick(words);
        if (rng.chance(2)) s += std::string(std::size_t(rng.range(100, 5000)), 'x');
        v.push_back(s);
    }
    return v;
}

static const std::vector<std::string> kinds { "copy", "select", "prefix", "limit", "fixed", "channel", "dup", "jail", "enc", "bridge" };

int main(int argc, char** argv)
{
    vp::Rng rng(std::uint64_t(std::strtoull(argv[1], nullptr, 10)));
    long episodes = std::atol(argv[2]), steps = std::atol(argv[3]);
    vp::Trace tr(argv[4]);
    char tmpl[] = "/tmp/vp-l01-XXXXXX";
    dir = ::mkdtemp(tmpl);
    if (argc > 5 && std::string(argv[5]) != "-") {
        std::ifstream in(argv[5]); std::string line;
        auto str = [](const vp::J& j) { std::string s; for (auto& x : j.a) s += x.s; return s; };
        while (std::getline(in, line)) {
            vp::J j = vp::JParser(line).parse();
            World w(rng, tr);
            w.add_root<char>("custom"); w.add_root<char>(rng.chance(70) ? "custom" : "stream");
            w.put_reset();
            for (auto& h : j["how"].a) {
                Make m; m.k = h["k"].s; m.b = int(h["b"].n) - 1; m.form = int(rng.below(24));
                if (h.has("c")) m.c = str(h["c"]);
                if (h.has("p")) m.p = h["p"].s;
                if (h.has("pat")) m.pat = str(h["pat"]);
                if (h.has("t")) m.rules.push_back({ str(h["n"]), int(h["t"].n) - 1, m.c });
                w.make(m);
            }
            for (int round = 0; round < 3; ++round) {
                for (int i = 2; i < int(w.nodes.size()); ++i) {
                    if (round > 0) w.set(i, int(rng.range(2, 6)));
                    if (round < 2) w.query(i);
                }
                for (int i = 0; i < int(w.nodes.size()); ++i) w.log(i, int(rng.range(2, 6)), { "m" + std::to_string(round) }, int(rng.below(8)));
            }
        }
    }
    for (long e = 0; e < episodes; ++e) {
        World w(rng, tr);
        long nr = rng.range(1, 3);
        static const std::vector<std::string> rk { "custom", "custom", "stream", "file", "null" };
        for (long i = 0; i < nr; ++i) { std::string k = rng.pick(rk); if (rng.chance(75)) w.add_root<char>(k); else w.add_root<wchar_t>(k); }
        w.put_reset();
        for (long s = 0; s < steps; ++s) {
            int n = int(w.nodes.size());
            if (n < 12 && rng.chance(s < 6 ? 70 : 25)) {
                Make m; m.k = rng.pick(kinds); m.b = rng.chance(50) ? n - 1 : int(rng.below(n)); m.form = int(rng.below(24));
                Node& b = *w.nodes[std::size_t(m.b)];
                if ((m.k == "enc" || m.k == "bridge") && b.w) continue;
                m.c = (m.k == "prefix" || m.k == "jail") && rng.chance(60) ? b.sel() : channel_of(rng, b);
                if (m.k == "prefix") { static const std::vector<std::string> ps { "", "A: ", "B ", "[c]", "dd" }; m.p = rng.chance(60) ? "P" + std::to_string(n) + ": " : rng.pick(ps); }
                static const std::vector<Name> pats { "*", "*", "a", "?", "a*b", "net*", "a*", "", "*b", "n*t*" };
                if (m.k == "limit" || m.k == "fixed") m.pat = rng.pick(pats);
                if (m.k == "fixed") m.level = int(rng.range(0, 8));
                if (m.k == "channel" || m.k == "dup") {
                    static const std::vector<Name> names { "a", "b", "ab", "net", "net.in", "", "nest" };
                    long nn = rng.chance(60) ? 1 : rng.range(0, 3);
                    for (long i = 0; i < nn; ++i) {
                        RuleRec r; r.n = m.k == "dup" ? channel_of(rng, b) : rng.pick(names);
                        bool dup = false; for (auto& x : m.rules) dup = dup || x.n == r.n;
                        r.t = int(rng.below(n));
                        Node& t = *w.nodes[std::size_t(r.t)];
                        if (dup || t.w != b.w) continue;
                        r.c = rng.chance(50) ? t.sel() : channel_of(rng, t);
                        m.rules.push_back(r);
                    }
                }
                w.make(m);
            }
            else if (rng.chance(25)) w.set(int(rng.below(n)), int(rng.range(0, 8)));
            else if (rng.chance(25)) w.query(int(rng.below(n)));
            else w.log(rng.chance(50) ? n - 1 : int(rng.below(n)), int(rng.range(1, 7)), lines_of(rng), int(rng.below(8)));
        }
    }
    ::rmdir(dir.c_str());
    return 0;
}
