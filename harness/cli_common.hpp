// Random command line specifications and command lines for Archon's command line processor:
// patterns are made up from the types of the parameters of the pattern functions, and the
// arguments that those functions get are written down in a canonical form.
#ifndef VP_CLI_COMMON_HPP
#define VP_CLI_COMMON_HPP

#include <array>
#include <memory>
#include <optional>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
#include <archon/cli.hpp>
#include "common.hpp"

namespace vpcli {

namespace core = archon::core;
namespace cli = archon::cli;

inline std::string quoted(const std::string& s)
{
    std::string o;
    vp::json_str(o, s);
    return o;
}
template<class L, class F> std::string list(const L& l, F&& f)
{
    std::string o = "[";
    bool first = true;
    for (const auto& x : l) {
        if (!first)
            o += ',';
        first = false;
        o += f(x);
    }
    return o + "]";
}
inline std::string jchars(const std::string& s) { return list(s, [](char c) { return quoted(std::string(1, c)); }); }
inline std::string jb(bool b) { return b ? "true" : "false"; }

// ---------------------------------------------------------------- patterns
struct Node {
    char t = 's';               // 's' symbol, 'o' optional, 'r' repeated, 'a' choice, 'q' branch
    std::string k, x;           // symbol: kind and text
    char kind = 's';            // kind of value
    std::vector<Node> subs;
};
using Nodes = std::vector<Node>;

inline bool is_param(const Node& n) { return n.t != 's' || n.k == "val"; }

struct Tok {
    std::string k, x;
    bool sp;
};
using Toks = std::vector<Tok>;

inline Node sym(std::string k, std::string x) { Node n; n.k = std::move(k); n.x = std::move(x); return n; }
inline Node comp(char t, Nodes subs) { Node n; n.t = t; n.subs = std::move(subs); return n; }

inline bool wordy(const std::string& k) { return k == "kw" || k == "so" || k == "lo"; }

// The text for a sequence of tokens. Where two tokens would become one, there is a space.
inline std::string text_of(Toks& toks, vp::Rng& rng)
{
    std::string s = rng.chance(10) ? " " : "";
    for (std::size_t i = 0; i < toks.size(); ++i) {
        Tok& t = toks[i];
        if (i > 0) {
            const Tok& p = toks[i - 1];
            if (wordy(p.k) && wordy(t.k))
                t.sp = true;
        }
        if (t.sp)
            s += rng.chance(10) ? "  " : " ";
        s += t.x;
    }
    return s + (rng.chance(5) ? " " : "");
}

struct Printer {
    vp::Rng& rng;
    Toks out;

    void put(const std::string& k, const std::string& x, bool elem)
    {
        bool sp = rng.chance(elem ? 100 : 25);
        out.push_back({ k, x, sp });
    }
    void alts(const Node& a)
    {
        for (std::size_t i = 0; i < a.subs.size(); ++i) {
            if (i > 0)
                put("|", "|", rng.chance(80));
            seq(a.subs[i].subs, 0, a.subs[i].subs.size());
        }
    }
    void open(const char* b) { put(b, b, true); }
    void close(const char* b) { put(b, b, false); }
    void elem(const Node& n)
    {
        switch (n.t) {
            case 's':
                put(n.k, n.x, true);
                return;
            case 'o':
                open("[");
                if (n.subs.size() == 1 && n.subs[0].t == 'a' && rng.chance(80))
                    alts(n.subs[0]);
                else
                    seq(n.subs, 0, n.subs.size());
                close("]");
                return;
            case 'r':
                if (n.subs.size() == 1 && rng.chance(85))
                    elem(n.subs[0]);
                else {
                    open("(");
                    seq(n.subs, 0, n.subs.size());
                    close(")");
                }
                put("...", "...", false);
                return;
            case 'a':
                open("(");
                alts(n);
                close(")");
                return;
        }
    }
    void seq(const Nodes& ns, std::size_t a, std::size_t b)
    {
        if (b > a && rng.chance(5)) {
            open("(");
            seq(ns, a, b);
            close(")");
            return;
        }
        if (b - a > 1 && rng.chance(8)) {
            std::size_t m = a + 1 + rng.below(long(b - a - 1));
            seq(ns, a, m);
            seq(ns, m, b);
            return;
        }
        for (std::size_t i = a; i < b; ++i)
            elem(ns[i]);
    }
};

// ---------------------------------------------------------------- types
template<class T> struct Type;

inline std::string ty(char k, const std::string& subs) { return std::string("{\"k\":\"") + k + "\",\"subs\":[" + subs + "]}"; }

// What is possible in a pattern
struct Symbols {
    vp::Rng& rng;
    std::vector<std::string> kws, sos, los;
    int decorate;               // percentage
    std::vector<std::string> used;
    int fresh = 0;

    // Many symbols are used only once, as patterns would otherwise mostly be ambiguous
    Node next()
    {
        Node n;
        for (int i = 0; i < 12; ++i) {
            int r = int(rng.below(10));
            if (r < 4 || (sos.empty() && los.empty()))
                n = sym("kw", rng.pick(kws));
            else if ((r < 7 && !sos.empty()) || los.empty())
                n = sym("so", rng.pick(sos));
            else
                n = sym("lo", rng.pick(los));
            bool again = std::find(used.begin(), used.end(), n.x) != used.end();
            if (!again || rng.chance(6)) {
                used.push_back(n.x);
                return n;
            }
        }
        return sym("kw", "k" + std::to_string(fresh++));
    }
    Nodes plain(int max)
    {
        Nodes ns;
        int n = 1 + int(rng.below(max));
        for (int i = 0; i < n; ++i)
            ns.push_back(next());
        return ns;
    }
};

inline void decorated(Nodes& out, Symbols& s) { if (s.rng.chance(s.decorate)) out.push_back(s.next()); }

// A sequence of elements for a list of types
template<class... U> struct Tuple {
    static std::string types()
    {
        std::string o;
        ((o += (o.empty() ? "" : ",") + Type<U>::type()), ...);
        return o;
    }
    static Nodes make(Symbols& s)
    {
        Nodes ns;
        decorated(ns, s);
        ((ns.push_back(Type<U>::make(s)), decorated(ns, s)), ...);
        return ns;
    }
    template<class V> static void show(const Nodes& ns, const V& v, std::vector<std::string>& out)
    {
        std::vector<const Node*> ps;
        for (const Node& n : ns)
            if (is_param(n))
                ps.push_back(&n);
        if (ps.size() != sizeof...(U)) {
            out.push_back("?");
            return;
        }
        show_2(ps, v, out, std::index_sequence_for<U...>());
    }
private:
    template<class V, std::size_t... I>
    static void show_2(const std::vector<const Node*>& ps, const V& v, std::vector<std::string>& out, std::index_sequence<I...>)
    {
        (Type<U>::show(*ps[I], std::get<I>(v), out), ...);
    }
};

// The sequence for what is inside an optional part, a repetition or a branch
template<class T> struct Inner {
    static std::string types() { return Type<T>::type(); }
    static Nodes make(Symbols& s) { return Tuple<T>::make(s); }
    static void show(const Nodes& ns, const T& v, std::vector<std::string>& out) { Tuple<T>::show(ns, std::tie(v), out); }
};
template<class... U> struct Inner<std::tuple<U...>>: Tuple<U...> {};
template<class U, class V> struct Inner<std::pair<U, V>>: Tuple<U, V> {};
template<class U> struct Inner<std::array<U, 2>>: Tuple<U, U> {};
template<> struct Inner<std::monostate> {
    static std::string types() { return ""; }
    static Nodes make(Symbols& s) { return s.plain(2); }
    static void show(const Nodes&, std::monostate, std::vector<std::string>&) {}
};

inline Node value_slot(char kind) { Node n = sym("val", kind == 'i' ? "<number>" : "<v>"); n.kind = kind; return n; }

template<> struct Type<std::string> {
    static std::string type() { return ty('s', ""); }
    static Node make(Symbols&) { return value_slot('s'); }
    static void show(const Node& n, const std::string& v, std::vector<std::string>& out) { out.push_back(n.k == "val" ? "V" + v : "?"); }
};
template<> struct Type<std::string_view>: Type<std::string> {
    static void show(const Node& n, std::string_view v, std::vector<std::string>& out) { out.push_back(n.k == "val" ? "V" + std::string(v) : "?"); }
};
template<> struct Type<int> {
    static std::string type() { return ty('i', ""); }
    static Node make(Symbols&) { return value_slot('i'); }
    static void show(const Node& n, int v, std::vector<std::string>& out) { out.push_back(n.k == "val" ? "V" + std::to_string(v) : "?"); }
};
template<> struct Type<bool> {
    static std::string type() { return ty('b', ""); }
    static Node make(Symbols& s) { return comp('o', s.plain(2)); }
    static void show(const Node&, bool v, std::vector<std::string>& out) { out.push_back(v ? "O1" : "O0"); }
};
inline Node optional_rep(Nodes inside, Symbols& s)
{
    Nodes ns;
    decorated(ns, s);
    ns.push_back(comp('r', std::move(inside)));
    decorated(ns, s);
    return comp('o', std::move(ns));
}
template<> struct Type<std::size_t> {
    static std::string type() { return ty('n', ""); }
    static Node make(Symbols& s)
    {
        switch (s.rng.below(3)) {
            case 0: return comp('r', s.plain(2));
            case 1: return optional_rep(s.plain(2), s);
        }
        Nodes branches;
        int n = 2 + int(s.rng.below(2));
        for (int i = 0; i < n; ++i)
            branches.push_back(comp('q', s.plain(2)));
        return comp('a', std::move(branches));
    }
    static void show(const Node& n, std::size_t v, std::vector<std::string>& out)
    {
        if (n.t == 'o') {
            out.push_back(v == 0 ? "O0" : "O1");
            if (v == 0)
                return;
        }
        out.push_back((n.t == 'a' ? "A" : "R") + std::to_string(v));
    }
};
template<class T> struct Type<std::optional<T>> {
    static std::string type() { return ty('o', ty('t', Inner<T>::types())); }
    static Node make(Symbols& s) { return comp('o', Inner<T>::make(s)); }
    static void show(const Node& n, const std::optional<T>& v, std::vector<std::string>& out)
    {
        out.push_back(v ? "O1" : "O0");
        if (v)
            Inner<T>::show(n.subs, *v, out);
    }
};
template<class T> struct Type<std::vector<T>> {
    static std::string type() { return ty('r', ty('t', Inner<T>::types())); }
    static Node make(Symbols& s)
    {
        if (s.rng.chance(50))
            return comp('r', Inner<T>::make(s));
        return optional_rep(Inner<T>::make(s), s);
    }
    static void show(const Node& n, const std::vector<T>& v, std::vector<std::string>& out)
    {
        const Node* r = &n;
        if (n.t == 'o') {
            out.push_back(v.empty() ? "O0" : "O1");
            if (v.empty())
                return;
            for (const Node& m : n.subs)
                if (m.t == 'r')
                    r = &m;
        }
        out.push_back("R" + std::to_string(v.size()));
        for (const T& x : v)
            Inner<T>::show(r->subs, x, out);
    }
};
template<class... U> struct Type<std::variant<U...>> {
    static std::string type()
    {
        std::string o;
        ((o += (o.empty() ? "" : ",") + ty('t', Inner<U>::types())), ...);
        return ty('a', o);
    }
    static Node make(Symbols& s)
    {
        Nodes branches;
        (branches.push_back(comp('q', Inner<U>::make(s))), ...);
        return comp('a', std::move(branches));
    }
    static void show(const Node& n, const std::variant<U...>& v, std::vector<std::string>& out)
    {
        out.push_back("A" + std::to_string(v.index()));
        std::visit([&](const auto& x) {
            Inner<std::remove_cvref_t<decltype(x)>>::show(n.subs[v.index()].subs, x, out);
        }, v);
    }
};

// ---------------------------------------------------------------- the world that actions act on
struct World {
    std::vector<std::string> log;
    std::string s1, s2;
    int i1 = 0, i2 = 0;
    bool b1 = false;
    std::optional<int> o1;
    std::string t1;             // for patterns that assign to variables
    int t2 = 0;
    std::vector<std::pair<std::size_t, std::string>> errors;

    std::vector<std::string> vars() const
    {
        return { s1, s2, std::to_string(i1), std::to_string(i2), b1 ? "true" : "false", o1 ? std::to_string(*o1) : "none" };
    }
    void fresh()
    {
        *this = World();
        s1 = "one";
        s2 = "two";
        i1 = 1;
        i2 = 2;
    }
};

struct Pattern {
    std::string toks = "[]", text, types = "[]";
    Nodes nodes;
    bool bad = false, deleg = false, badattr = false, fn = false, compl_ = false;
    int ret = 0, sub = 0, id = 0;
    bool ties = false, mute = false;
    std::function<void(cli::Spec&, int attr, const Pattern&, World&)> add;
};

struct Option {
    std::vector<std::string> forms;
    std::string forms_text, arg_text, arg = "none", takes = "never", kind = "s", dflt, cond;
    bool sc = false, stop = false, badforms = false, badarg = false, badattr = false, act = true, assign = false;
    int var = 1, id = 0;
    std::function<void(cli::Spec&, int attr, const Option&, World&)> add;
};

struct SpecDesc {
    std::vector<Pattern> pats;
    std::vector<Option> opts;
    bool xamb = false, pamb = false;
    std::unique_ptr<cli::Spec> spec;
};

inline std::string json(const Pattern& p)
{
    return "{\"toks\":" + p.toks + ",\"bad\":" + jb(p.bad) + ",\"deleg\":" + jb(p.deleg) + ",\"badattr\":" + jb(p.badattr) +
        ",\"fn\":" + jb(p.fn) + ",\"types\":" + p.types + ",\"compl\":" + jb(p.compl_) + ",\"ret\":" + std::to_string(p.ret) +
        ",\"sub\":" + std::to_string(p.sub) + ",\"id\":" + std::to_string(p.id) + "}";
}
inline std::string json(const Option& o)
{
    return "{\"forms\":" + list(o.forms, quoted) + ",\"arg\":" + quoted(o.arg) + ",\"sc\":" + jb(o.sc) + ",\"stop\":" + jb(o.stop) +
        ",\"badforms\":" + jb(o.badforms) + ",\"badarg\":" + jb(o.badarg) + ",\"badattr\":" + jb(o.badattr) +
        ",\"takes\":" + quoted(o.takes) + ",\"act\":" + jb(o.act) + ",\"kind\":" + quoted(o.kind) + ",\"dflt\":" + quoted(o.dflt) +
        ",\"cond\":" + quoted(o.cond) + ",\"assign\":" + jb(o.assign) + ",\"var\":" + std::to_string(o.var) +
        ",\"id\":" + std::to_string(o.id) + "}";
}
inline std::string json(const SpecDesc& s)
{
    return "{\"pats\":" + list(s.pats, [](const Pattern& p) { return json(p); }) +
        ",\"opts\":" + list(s.opts, [](const Option& o) { return json(o); }) +
        ",\"xamb\":" + jb(s.xamb) + ",\"pamb\":" + jb(s.pamb) + "}";
}
inline void set_tokens(Pattern& p, Toks& toks, vp::Rng& rng)
{
    p.text = text_of(toks, rng);
    p.toks = list(toks, [](const Tok& t) { return "{\"k\":" + quoted(t.k) + ",\"x\":" + quoted(t.x) + ",\"sp\":" + jb(t.sp) + "}"; });
}

// ---------------------------------------------------------------- pattern functions
template<class... P> struct Sig {
    static void add(cli::Spec& spec, int attr, const Pattern& p, World& w)
    {
        if (p.ret == 0 && (p.id & 1) != 0) {
            spec.add_pattern(p.text, attr, "", [&p, &w](P... args) { call(p, w, args...); });
            return;
        }
        spec.add_pattern(p.text, attr, "", [&p, &w](P... args) -> int {
            call(p, w, args...);
            return p.ret;
        });
    }
    static void call(const Pattern& p, World& w, const P&... args)
    {
        w.log.push_back("p" + std::to_string(p.id));
        if (!p.mute)
            Tuple<P...>::show(p.nodes, std::tie(args...), w.log);
    }
    static void make(Pattern& p, Symbols& s)
    {
        p.nodes = Tuple<P...>::make(s);
        p.fn = true;
        p.types = "[" + Tuple<P...>::types() + "]";
        p.add = &add;
    }
};

// Assigns to variables instead of calling a function
struct TieSig {
    static void add(cli::Spec& spec, int attr, const Pattern& p, World& w)
    {
        spec.add_pattern(p.text, attr, "", std::tie(w.t1, w.t2));
    }
    static void make(Pattern& p, Symbols& s)
    {
        p.nodes = Tuple<std::string, int>::make(s);
        p.fn = true;
        p.ties = true;
        p.types = "[" + Tuple<std::string, int>::types() + "]";
        p.add = &add;
    }
};
struct NoSig {
    static void add(cli::Spec& spec, int attr, const Pattern& p, World&) { spec.add_pattern(p.text, attr, "", cli::no_action); }
    static void make(Pattern& p, Symbols& s)
    {
        p.nodes = Tuple<std::string, std::optional<std::string>>::make(s);
        p.add = &add;
    }
};

using MakeSig = void (*)(Pattern&, Symbols&);

// ---------------------------------------------------------------- running
inline std::string code_name(cli::SpecError e)
{
    switch (e) {
        case cli::SpecError::bad_pattern_syntax: return "bad_pattern_syntax";
        case cli::SpecError::bad_option_forms_syntax: return "bad_option_forms_syntax";
        case cli::SpecError::bad_option_arg_syntax: return "bad_option_arg_syntax";
        case cli::SpecError::bad_pattern_attr: return "bad_pattern_attr";
        case cli::SpecError::bad_option_attr: return "bad_option_attr";
        case cli::SpecError::bad_option_ref: return "bad_option_ref";
        case cli::SpecError::option_arg_not_allowed: return "option_arg_not_allowed";
        case cli::SpecError::pattern_func_mismatch: return "pattern_func_mismatch";
        case cli::SpecError::option_func_mismatch: return "option_func_mismatch";
        case cli::SpecError::option_form_reuse: return "option_form_reuse";
        case cli::SpecError::structural_ambiguity: return "structural_ambiguity";
        case cli::SpecError::positional_ambiguity: return "positional_ambiguity";
        case cli::SpecError::cross_pattern_ambiguity: return "cross_pattern_ambiguity";
        case cli::SpecError::prefix_deleg_pattern: return "prefix_deleg_pattern";
    }
    return "?";
}
inline std::string code_name(cli::ProcError e)
{
    switch (e) {
        case cli::ProcError::bad_option: return "bad_option";
        case cli::ProcError::no_pattern_match: return "no_pattern_match";
        case cli::ProcError::bad_option_arg: return "bad_option_arg";
        case cli::ProcError::bad_pattern_arg: return "bad_pattern_arg";
    }
    return "?";
}

struct Handler: cli::ErrorHandler {
    World& w;
    explicit Handler(World& w_2): w(w_2) {}
    void handle(core::Span<const ErrorEntry> errors, int& exit_status) override
    {
        w.errors.clear();
        for (const ErrorEntry& e : errors)
            w.errors.push_back({ e.arg_index, code_name(e.error_code) });
        exit_status = 40;
    }
};

class Session {
public:
    std::vector<std::unique_ptr<SpecDesc>> specs;
    std::vector<std::string> codes;
    World w;
    bool usable = false;

    // Builds the specifications, and finds out whether they are accepted
    void build(vp::Trace& trace)
    {
        for (auto& d : specs)
            build_one(*d);
        codes.clear();
        usable = true;
        for (auto& d : specs) {
            codes.push_back(verdict(*d));
            if (!codes.back().empty())
                usable = false;
        }
        w.fresh();
        vp::Ev e("reset");
        e.raw("specs", list(specs, [](const auto& d) { return json(*d); }));
        e.strs("codes", codes);
        e.strs("vars", w.vars());
        trace.put(e);
    }

    void process(const std::vector<std::string>& args, vp::Trace& trace)
    {
        w.fresh();
        int status = -5;
        bool ret = run(*specs[0], args, status);
        if (!ret)
            status = 0;
        for (const Pattern& p : specs[0]->pats)
            if (p.ties && w.t1 != "?none") {
                w.log.push_back("p" + std::to_string(p.id));
                Tuple<std::string, int>::show(p.nodes, std::tie(w.t1, w.t2), w.log);
            }
        vp::Ev e("process");
        e.raw("args", list(args, jchars));
        e.b("ret", ret);
        e.i("status", status);
        e.strs("log", w.log);
        e.strs("vars", w.vars());
        e.raw("errs", list(w.errors, [](const auto& x) { return "[" + std::to_string(x.first) + "," + quoted(x.second) + "]"; }));
        trace.put(e);
    }

private:
    bool m_probing = false;

    void build_one(SpecDesc& d)
    {
        d.spec = std::make_unique<cli::Spec>();
        // Patterns and options may be added in any order
        std::size_t n = d.pats.size() + d.opts.size(), p = 0, o = 0;
        for (std::size_t i = 0; i < n; ++i) {
            if (o < d.opts.size() && (p == d.pats.size() || ((i + d.pats.size()) % 3) != 0)) {
                const Option& x = d.opts[o++];
                int attr = (x.sc ? cli::short_circuit : 0) | (x.stop ? cli::further_args_are_values : 0) |
                    (x.badattr ? 8 << (o % 3) : 0) | (o % 4 == 0 ? cli::unlisted : 0);
                x.add(*d.spec, attr, x, w);
            }
            else {
                const Pattern& x = d.pats[p++];
                int attr = (x.compl_ ? cli::completing : 0) | (x.badattr ? 2 << (p % 3) : 0);
                if (!x.deleg) {
                    x.add(*d.spec, attr, x, w);
                    continue;
                }
                d.spec->add_pattern(x.text, attr, "", [this, &x](const cli::CommandLine& cl) -> int {
                    w.log.push_back("d" + std::to_string(x.id));
                    if (x.sub == 0 || m_probing)
                        return x.ret;
                    int status = 77;
                    cli::Processor proc(cl, *specs[std::size_t(x.sub - 1)]->spec);
                    proc.process(status);
                    return status;
                });
            }
        }
        if (d.xamb)
            d.spec->allow_cross_pattern_ambiguity();
        if (d.pamb)
            d.spec->allow_pattern_internal_positional_ambiguity();
    }
    bool run(const SpecDesc& d, const std::vector<std::string>& args, int& status)
    {
        std::vector<const char*> argv { "prog" };
        for (const std::string& a : args)
            argv.push_back(a.c_str());
        argv.push_back(nullptr);
        Handler handler(w);
        cli::Config config;
        config.error_handler = &handler;
        w.t1 = "?none";
        cli::Processor proc(int(args.size()) + 1, argv.data(), *d.spec, std::locale::classic(), std::move(config));
        return proc.process(status);
    }
    std::string verdict(const SpecDesc& d)
    {
        // Not that of a specification that is delegated to
        m_probing = true;
        std::string code;
        try {
            int status = 0;
            run(d, {}, status);
        }
        catch (const cli::BadSpec& e) {
            code = code_name(e.error_code());
        }
        m_probing = false;
        return code;
    }
};

// ---------------------------------------------------------------- options
inline Option make_option(vp::Rng& rng, int id, std::vector<std::string> forms)
{
    Option o;
    o.id = id;
    o.forms = forms;
    for (const std::string& f : forms)
        o.forms_text += (o.forms_text.empty() ? "" : rng.chance(80) ? ", " : ",") + f;
    auto log = [](const Option& x, World& w, const std::string& s) { w.log.push_back("o" + std::to_string(x.id) + ":" + s); };
    auto shorty = [](const std::string& s) { return s.size() <= 2; };
    auto nonneg = [](int i) { return i >= 0; };
    bool dflt = rng.chance(50);
    o.takes = "may";
    switch (rng.below(16)) {
        case 0:
        case 1:
            o.takes = "never";
            o.add = [log](cli::Spec& s, int attr, const Option& x, World& w) {
                s.add_option(x.forms_text, x.arg_text, attr, "", cli::exec([&x, &w, log] { log(x, w, ""); }));
            };
            break;
        case 2:
            o.takes = "never";
            o.act = false;
            o.add = [](cli::Spec& s, int attr, const Option& x, World&) {
                s.add_option(x.forms_text, x.arg_text, attr, "", cli::no_action);
            };
            break;
        case 3:
            o.dflt = dflt ? "dd" : "";
            o.add = [log, dflt](cli::Spec& s, int attr, const Option& x, World& w) {
                auto f = [&x, &w, log](const std::string& v) { log(x, w, v); };
                if (dflt)
                    s.add_option(x.forms_text, x.arg_text, attr, "", cli::exec(f, "dd"));
                else
                    s.add_option(x.forms_text, x.arg_text, attr, "", f);
            };
            break;
        case 4:
            o.kind = "i";
            o.dflt = dflt ? "-7" : "0";
            o.add = [log, dflt](cli::Spec& s, int attr, const Option& x, World& w) {
                auto f = [&x, &w, log](int v) { log(x, w, std::to_string(v)); };
                if (dflt)
                    s.add_option(x.forms_text, x.arg_text, attr, "", cli::exec(f, -7));
                else
                    s.add_option(x.forms_text, x.arg_text, attr, "", cli::exec(f));
            };
            break;
        case 5:
            o.cond = "short";
            o.dflt = dflt ? "long default" : "";
            o.add = [log, dflt, shorty](cli::Spec& s, int attr, const Option& x, World& w) {
                auto f = [&x, &w, log](std::string v) { log(x, w, v); };
                if (dflt)
                    s.add_option(x.forms_text, x.arg_text, attr, "", cli::exec_c(f, shorty, "long default"));
                else
                    s.add_option(x.forms_text, x.arg_text, attr, "", cli::exec_c(f, shorty));
            };
            break;
        case 6:
            // A function can refuse its argument
            o.kind = "i";
            o.cond = "nonneg";
            o.dflt = "0";
            o.add = [log](cli::Spec& s, int attr, const Option& x, World& w) {
                s.add_option(x.forms_text, x.arg_text, attr, "", [&x, &w, log](int v) {
                    if (v < 0)
                        return false;
                    log(x, w, std::to_string(v));
                    return true;
                });
            };
            break;
        case 7:
            o.kind = "i";
            o.dflt = "none";
            o.add = [log](cli::Spec& s, int attr, const Option& x, World& w) {
                s.add_option(x.forms_text, x.arg_text, attr, "", [&x, &w, log](std::optional<int> v) {
                    log(x, w, v ? std::to_string(*v) : "none");
                });
            };
            break;
        case 8:
        case 9: {
            bool second = rng.chance(50);
            o.assign = true;
            o.var = second ? 2 : 1;
            o.dflt = dflt ? "dd" : "";
            o.add = [dflt, second](cli::Spec& s, int attr, const Option& x, World& w) {
                std::string& v = second ? w.s2 : w.s1;
                if (dflt)
                    s.add_option(x.forms_text, x.arg_text, attr, "", cli::assign(v, "dd"));
                else
                    s.add_option(x.forms_text, x.arg_text, attr, "", std::tie(v));
            };
            break;
        }
        case 10:
            o.assign = true;
            o.var = 3;
            o.kind = "i";
            o.dflt = dflt ? "5" : "0";
            o.add = [dflt](cli::Spec& s, int attr, const Option& x, World& w) {
                if (dflt)
                    s.add_option(x.forms_text, x.arg_text, attr, "", cli::assign(w.i1, 5));
                else
                    s.add_option(x.forms_text, x.arg_text, attr, "", cli::assign(w.i1));
            };
            break;
        case 11:
            o.assign = true;
            o.var = 4;
            o.kind = "i";
            o.cond = "nonneg";
            o.dflt = dflt ? "-4" : "0";
            o.add = [dflt, nonneg](cli::Spec& s, int attr, const Option& x, World& w) {
                if (dflt)
                    s.add_option(x.forms_text, x.arg_text, attr, "", cli::assign_c(w.i2, nonneg, -4));
                else
                    s.add_option(x.forms_text, x.arg_text, attr, "", cli::assign_c(w.i2, nonneg));
            };
            break;
        case 12: {
            bool lower = rng.chance(30);
            o.assign = true;
            o.var = 5;
            o.kind = "s";
            o.takes = "flag";
            o.dflt = lower ? "false" : "true";
            o.add = [lower](cli::Spec& s, int attr, const Option& x, World& w) {
                if (lower)
                    s.add_option(x.forms_text, x.arg_text, attr, "", cli::lower_flag(w.b1));
                else
                    s.add_option(x.forms_text, x.arg_text, attr, "", cli::raise_flag(w.b1));
            };
            break;
        }
        case 13:
            o.assign = true;
            o.var = 6;
            o.kind = "i";
            o.dflt = "none";
            o.add = [](cli::Spec& s, int attr, const Option& x, World& w) {
                s.add_option(x.forms_text, x.arg_text, attr, "", cli::assign(w.o1));
            };
            break;
        case 14:
            o.assign = true;
            o.var = 3;
            o.kind = "j";
            o.takes = "must";
            o.add = [](cli::Spec& s, int attr, const Option& x, World& w) {
                s.add_option(x.forms_text, x.arg_text, attr, "", cli::assign(core::as_int(w.i1)));
            };
            break;
        default:
            o.assign = true;
            o.var = 2;
            o.cond = "short";
            o.dflt = dflt ? "long default" : "";
            o.add = [dflt, shorty](cli::Spec& s, int attr, const Option& x, World& w) {
                if (dflt)
                    s.add_option(x.forms_text, x.arg_text, attr, "", cli::assign_c(w.s2, shorty, "long default"));
                else
                    s.add_option(x.forms_text, x.arg_text, attr, "", cli::assign_c(w.s2, shorty));
            };
    }
    if (o.takes == "flag")
        o.takes = "may"; // and never declared with an argument
    else if (o.takes == "must")
        o.arg = "req";
    else if (o.takes == "may")
        o.arg = rng.chance(25) ? "none" : rng.chance(60) ? "req" : "opt";
    if (o.arg == "req")
        o.arg_text = "<x>";
    if (o.arg == "opt")
        o.arg_text = rng.chance(70) ? "[<x>]" : "[ <x> ]";
    if (o.arg == "none") {
        o.sc = rng.chance(12);
        o.stop = rng.chance(6);
    }
    return o;
}

inline Option stop_option(int id)
{
    Option o;
    o.id = id;
    o.forms = { "--" };
    o.act = false;
    o.stop = true;
    o.add = [](cli::Spec& s, int, const Option&, World&) { opt(cli::stop_tag, s); };
    return o;
}

// ---------------------------------------------------------------- command lines
inline std::string value_text(vp::Rng& rng, char kind)
{
    static const std::vector<std::string> good { "0", "7", "42", "-3", "-120", "123456789", "8", "007", "-00", "2147483647", "-2147483648" };
    static const std::vector<std::string> odd { "x7", "", "seven", "99999999999", "99999999999999999999999", "4x", "+", "2147483648", "-2147483649", "1 2" };
    static const std::vector<std::string> texts { "foo", "bar", "a", "b", "", "-", "x y", "k0", "-x", "--foo", "--", "=", "a=b", "add", "7" };
    if (kind == 'i' || kind == 'j')
        return rng.chance(88) ? rng.pick(good) : rng.pick(odd);
    return rng.chance(75) ? std::string("v") + std::to_string(rng.below(20)) : rng.pick(texts);
}

struct Liner {
    vp::Rng& rng;
    const SpecDesc& d;
    const std::vector<std::unique_ptr<SpecDesc>>& specs;

    void match(const Nodes& ns, std::vector<std::string>& out)
    {
        for (const Node& n : ns) {
            switch (n.t) {
                case 's':
                    out.push_back(n.k == "val" ? value_text(rng, n.kind) : n.k == "kw" ? n.x : form_like(n.x));
                    break;
                case 'o':
                    if (rng.chance(60))
                        match(n.subs, out);
                    break;
                case 'r': {
                    int k = 1 + (rng.chance(50) ? int(rng.below(3)) : 0);
                    for (int i = 0; i < k; ++i)
                        match(n.subs, out);
                    break;
                }
                case 'a':
                    match(n.subs[std::size_t(rng.below(long(n.subs.size())))].subs, out);
                    break;
            }
        }
    }
    // Another form of the same option
    std::string form_like(const std::string& form)
    {
        for (const Option& o : d.opts)
            if (std::find(o.forms.begin(), o.forms.end(), form) != o.forms.end())
                return rng.pick(o.forms);
        return form;
    }
    std::vector<std::string> option(const Option& o)
    {
        const std::string& f = rng.pick(o.forms);
        bool lng = f.size() != 2 || f[1] == '-';
        bool give = o.arg == "req" ? rng.chance(95) : o.arg == "opt" ? rng.chance(50) : rng.chance(4);
        if (!give)
            return { f };
        std::string v = value_text(rng, o.kind[0]);
        if (o.cond == "short" && rng.chance(50))
            v = v.substr(0, 2);
        if (o.arg == "req" && rng.chance(50))
            return { f, v };
        return { lng ? f + "=" + v : f + v };
    }
    static bool shorty(const std::string& s) { return s.size() >= 2 && s[0] == '-' && s[1] != '-'; }

    std::vector<std::string> line()
    {
        std::vector<std::vector<std::string>> parts;
        if (!d.pats.empty()) {
            std::vector<std::string> m;
            const Pattern& p = rng.pick(d.pats);
            match(p.nodes, m);
            if (p.sub > 0) {
                std::vector<std::string> more = Liner { rng, *specs[std::size_t(p.sub - 1)], specs }.line();
                m.insert(m.end(), more.begin(), more.end());
            }
            for (const std::string& s : m)
                parts.push_back({ s });
        }
        int n = d.opts.empty() ? 0 : int(rng.below(4));
        for (int i = 0; i < n; ++i) {
            const Option& o = rng.pick(d.opts);
            if (o.forms.empty() || (o.sc && rng.chance(60)))
                continue;
            parts.insert(parts.begin() + rng.below(long(parts.size()) + 1), option(o));
        }
        std::vector<std::string> args;
        for (const auto& p : parts) {
            for (std::size_t i = 0; i < p.size(); ++i) {
                // Compounds of short options
                if (i == 0 && shorty(p[0]) && !args.empty() && shorty(args.back()) && rng.chance(50))
                    args.back() += p[0].substr(1);
                else
                    args.push_back(p[i]);
            }
        }
        int muts = rng.chance(78) ? 0 : 1 + int(rng.below(2));
        for (int i = 0; i < muts; ++i) {
            std::size_t k = args.empty() ? 0 : std::size_t(rng.below(long(args.size())));
            switch (rng.below(7)) {
                case 0:
                    if (!args.empty())
                        args.erase(args.begin() + long(k));
                    break;
                case 1:
                    args.insert(args.begin() + long(k), value_text(rng, rng.chance(30) ? 'i' : 's'));
                    break;
                case 2:
                    if (!args.empty())
                        args.insert(args.begin() + long(k), args[k]);
                    break;
                case 3:
                    if (args.size() > 1)
                        std::swap(args[k], args[(k + 1) % args.size()]);
                    break;
                case 4:
                    if (!args.empty() && args[k].size() > 1)
                        args[k].resize(args[k].size() - 1);
                    break;
                case 5:
                    args.insert(args.begin() + long(k), "--");
                    break;
                case 6:
                    if (!args.empty())
                        args[k] += rng.chance(50) ? "-" : "x";
                    break;
            }
        }
        return args;
    }
};

// ---------------------------------------------------------------- specifications
struct Plan {
    std::vector<MakeSig> sigs;
    int min_pats = 1, max_pats = 1, max_opts = 0, decorate = 30, deleg = 0;
    bool ties = true;
};

inline const std::vector<std::string> all_forms { "-x", "-y", "-z", "-v", "-o", "-1", "--foo", "--bar", "--output", "--opt-2" };

class Maker {
public:
    Maker(vp::Rng& r, const Plan& p): rng(r), plan(p) {}

    void make(Session& s)
    {
        s.specs.clear();
        m_id = 0;
        s.specs.push_back(nullptr);
        s.specs[0] = make_one(s, 0);
    }

    // Options to begin with: forms[0..used) are taken
    void make_options(SpecDesc& d)
    {
        std::vector<std::string> forms = all_forms;
        for (std::size_t i = forms.size(); i > 1; --i)
            std::swap(forms[i - 1], forms[std::size_t(rng.below(long(i)))]);
        int n = int(rng.below(plan.max_opts + 1));
        for (int i = 0; i < n; ++i) {
            std::vector<std::string> fs;
            int k = 1 + int(rng.below(3));
            for (int j = 0; j < k && forms.size() > 2; ++j) {
                fs.push_back(forms.back());
                forms.pop_back();
            }
            if (fs.empty())
                break;
            d.opts.push_back(vpcli::make_option(rng, m_id++, fs));
        }
        if (n > 0 && rng.chance(40))
            d.opts.push_back(stop_option(m_id++));
        // A third of the remaining forms are used in patterns
        m_free.assign(forms.begin(), forms.begin() + long(forms.size()) * 2 / 3);
    }
    Symbols symbols(const SpecDesc& d)
    {
        Symbols s { rng, { "a", "b", "add", "rm", "list", "to", "x1", "with-dash" }, {}, {}, plan.decorate, {}, 0 };
        auto put = [&](const std::string& f) { (f[1] == '-' ? s.los : s.sos).push_back(f); };
        for (const std::string& f : m_free)
            put(f);
        for (const Option& o : d.opts)
            if (o.arg == "none" && !o.sc && !o.stop)
                for (const std::string& f : o.forms)
                    put(f);
        return s;
    }

private:
    vp::Rng& rng;
    const Plan& plan;
    int m_id = 0;
    std::vector<std::string> m_free;

    std::unique_ptr<SpecDesc> make_one(Session& s, int depth)
    {
        auto d = std::make_unique<SpecDesc>();
        make_options(*d);
        Symbols syms = symbols(*d);
        d->xamb = rng.chance(35);
        d->pamb = rng.chance(35);
        int n = plan.min_pats + int(rng.below(plan.max_pats - plan.min_pats + 1));
        bool tied = false;
        for (int i = 0; i < n; ++i) {
            Pattern p;
            p.id = m_id++;
            p.compl_ = rng.chance(30);
            p.ret = rng.chance(35) ? int(rng.below(5)) : 0;
            bool deleg = depth < 2 && rng.chance(plan.deleg);
            if (deleg) {
                p.deleg = true;
                p.ret = int(rng.below(5));
                p.nodes = rng.chance(10) ? Nodes() : syms.plain(2);
            }
            else if (plan.ties && depth == 0 && !tied && rng.chance(6)) {
                TieSig::make(p, syms);
                p.ret = 0;
                tied = true;
            }
            else if (rng.chance(5))
                NoSig::make(p, syms);
            else
                rng.pick(plan.sigs)(p, syms);
            Printer pr { rng, {} };
            pr.seq(p.nodes, 0, p.nodes.size());
            set_tokens(p, pr.out, rng);
            d->pats.push_back(std::move(p));
        }
        for (Pattern& p : d->pats)
            if (p.deleg && rng.chance(85)) {
                s.specs.push_back(nullptr);
                std::size_t k = s.specs.size();
                auto sub = make_one(s, depth + 1);
                s.specs[k - 1] = std::move(sub);
                p.sub = int(k);
            }
        return d;
    }
};

} // namespace vpcli

#endif // VP_CLI_COMMON_HPP
