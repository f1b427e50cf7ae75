// Drives core::BasicStringMatcher and its builder.
#include "common.hpp"
#include <limits>
#include <stdexcept>
#include <archon/core/string_matcher.hpp>
using namespace archon;

template<class C> struct Run {
    using M = core::BasicStringMatcher<C>; using B = typename M::Builder; using Str = std::basic_string<C>;
    vp::Trace& t; vp::Rng& r;
    M m; std::unique_ptr<B> b; bool allow = false; std::vector<Str> pats; std::vector<std::size_t> ids;
    static std::vector<long> nums(const Str& s) { std::vector<long> v; for (C c : s) v.push_back(long(c)); return v; }
    static std::vector<std::vector<long>> nums(const std::vector<Str>& s) { std::vector<std::vector<long>> v; for (auto& x : s) v.push_back(nums(x)); return v; }
    // Whether to give it as a narrow string
    bool narrow(const Str& p, std::string& z) { for (C c : p) if (!(c > C(0) && c < C(127))) return false; z.assign(p.begin(), p.end()); return r.chance(40); }
    void reset() { m = M(); allow = r.chance(50); b.reset(); t.put(vp::Ev("reset")); fresh(); }
    void fresh() { typename B::Config c; c.allow_interpattern_ambiguity = allow; if (r.chance(40)) c.locale = r.chance(50) ? std::locale::classic() : std::locale("C.UTF-8");
        b = std::make_unique<B>(std::move(c)); pats.clear(); ids.clear(); }
    void add(const Str& p) { std::size_t id = r.chance(30) ? std::size_t(r.below(3)) : std::size_t(r.range(0, 1000)); std::string z;
        if (!narrow(p, z)) { if (id == 0 && r.chance(50)) b->add_pattern(M::PatternType::wildcard, std::basic_string_view<C>(p)); else b->add_pattern(M::PatternType::wildcard, std::basic_string_view<C>(p), id); }
        else { // The buffer is written over afterwards
            if (id == 0 && r.chance(50)) b->add_pattern(M::PatternType::wildcard, z.c_str()); else b->add_pattern(M::PatternType::wildcard, z.c_str(), id);
            for (char& c : z) c = '#';
        }
        pats.push_back(p); ids.push_back(id); }
    void build()
    {
        bool ok = true; try { if (r.chance(50)) b->build(m); else m = b->build(); } catch (std::runtime_error&) { ok = false; }
        vp::Ev ev("build"); ev.seq2("ps", nums(pats)).seq("ids", ids).b("allow", allow).b("ok", ok).b("deg", m.is_degenerate()); t.put(ev);
    }
    void match(const std::vector<Str>& ss)
    {
        std::vector<long> res; for (auto& s : ss) { std::size_t id = 0; bool y = m.match(s, id); if (y != m.match(s)) res.push_back(-2); else res.push_back(y ? long(id) : -1); }
        vp::Ev ev("match"); ev.seq2("ss", nums(ss)).seq("r", res); t.put(ev);
    }
    std::vector<C> alphabet() { using L = std::numeric_limits<C>; std::vector<C> all = { C('a'), C('b'), C('c'), C(0), L::max(), L::min(), C(L::max() - 1), C(L::min() + 1), C('*' + 1), C('*' - 1) };
        std::vector<C> v; long n = r.range(1, 4); for (long i = 0; i < n; ++i) v.push_back(r.chance(60) ? all[std::size_t(i % 3)] : r.pick(all)); return v; }
    Str rnd(const std::vector<C>& al, long max, int star) { Str s; long n = r.range(0, max); for (long i = 0; i < n; ++i) s += r.chance(star) ? C('*') : r.pick(al); return s; }
    // A string likely to match the pattern
    Str instance(const Str& p, const std::vector<C>& al) { Str s; for (C c : p) if (c == C('*')) s += rnd(al, 3, 5); else s += c; if (r.chance(30) && !s.empty()) s[std::size_t(r.below(long(s.size())))] = r.pick(al); return s; }
    void episode(long steps)
    {
        reset();
        for (long k = 0; k < steps; ++k) {
            auto al = alphabet();
            if (r.chance(60)) { if (r.chance(60)) b->clear(), pats.clear(), ids.clear(); else { allow = r.chance(50); fresh(); } }
            long n = r.range(0, 4); for (long i = 0; i < n && pats.size() < 8; ++i) add(rnd(al, 6, 25));
            if (r.chance(10) && b->empty() != pats.empty()) t.put(vp::Ev("wrong-empty"));
            build();
            if (r.chance(8)) { Str p = rnd(al, 5, 25); std::string z; bool nar = narrow(p, z); bool loc = r.chance(50); std::locale l = r.chance(50) ? std::locale::classic() : std::locale("C.UTF-8");
                if (nar) m = loc ? M(M::PatternType::wildcard, z.c_str(), l) : M(M::PatternType::wildcard, z.c_str());
                else m = loc ? M(M::PatternType::wildcard, std::basic_string_view<C>(p), l) : M(M::PatternType::wildcard, std::basic_string_view<C>(p));
                vp::Ev ev("build"); ev.seq2("ps", nums(std::vector<Str>(1, p))).raw("ids", "[0]").b("allow", false).b("ok", true).b("deg", m.is_degenerate()); t.put(ev); }
            std::vector<Str> ss; long q = r.range(5, 25);
            for (long i = 0; i < q; ++i) ss.push_back(!pats.empty() && r.chance(70) ? instance(r.pick(pats), al) : rnd(al, 8, 3));
            match(ss);
        }
    }
    void script(const vp::J& j)
    {
        reset(); for (auto& p : j.a) { Str s; for (auto& c : p.a) s += C(c.n); add(s); }
        build(); std::vector<Str> ss; Str s;
        auto rec = [&](auto& self, int n) -> void { ss.push_back(s); if (n) for (C c : { C('a'), C('b') }) { s += c; self(self, n - 1); s.pop_back(); } };
        rec(rec, 4); match(ss);
    }
};
int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Trace t(a.trace); vp::Rng r(a.seed); Run<char> x { t, r }; Run<wchar_t> y { t, r };
    for (auto& s : a.scripts) if (r.chance(50)) x.script(s); else y.script(s);
    for (long i = 0; i < a.episodes; ++i) if (i % 2) x.episode(a.steps); else y.episode(a.steps);
}
