// Driver for word wrapping (core/word_wrap.hpp) and the text formatter on top of it (core/text_formatter.hpp).
// Arguments: as always; the first of two drivers unless the environment says VP_FORMATTER.
#include "common.hpp"
#include <sstream>
#include <archon/core/word_wrap.hpp>
#include <archon/core/text_formatter.hpp>
using namespace archon;
namespace ww = core::word_wrap;
struct Run {
    vp::Trace& t; vp::Rng& r;
    ww::KnuthWrapper w;

    void one(const std::vector<ww::Word>& words, std::size_t trail, const std::vector<ww::Geometry>& geom, std::size_t g)
    {
        std::vector<std::vector<long>> ws, gs;
        for (auto& x : words) ws.push_back({ long(x.space_size), long(x.word_size) });
        for (auto& x : geom) gs.push_back({ long(x.line_size), long(x.next_geometry_index) });
        auto begin = [&](const char* n) { vp::Ev e(n); e.seq2("ws", ws).i("trail", long(trail)).seq2("geom", gs).i("g", long(g)); return e; };
        // What is left in the list of breakpoints does not matter
        std::vector<std::size_t> bp(std::size_t(r.below(4)), 7);
        ww::greedy(words, trail, geom, bp, g);
        t.put(begin("greedy").seq("bp", bp));
        std::vector<std::size_t> bp2(std::size_t(r.below(4)), 3);
        if (r.chance(30)) {
            ww::KnuthWrapper fresh;
            fresh.wrap(words, trail, geom, bp2, g);
            t.put(begin("knuth").seq("brk", bp2).i("badness", long(fresh.get_badness())));
        }
        else {
            w.wrap(words, trail, geom, bp2, g);
            t.put(begin("knuth").seq("brk", bp2).i("badness", long(w.get_badness())));
        }
    }
    void random()
    {
        std::vector<ww::Word> words; std::vector<ww::Geometry> geom;
        int n = int(r.chance(85) ? r.below(10) : r.below(25)), m = int(r.chance(30) ? 1 : r.range(1, 5));
        long maxw = r.chance(30) ? 3 : r.chance(50) ? 8 : 20, maxl = r.chance(20) ? 6 : r.chance(50) ? 20 : 60;
        bool one_space = r.chance(40);
        for (int k = 0; k < n; ++k) words.push_back({ std::size_t(one_space ? 1 : r.below(4)), std::size_t(r.chance(5) ? 0 : r.chance(5) ? r.below(3 * maxw) : r.below(maxw + 1)) });
        for (int k = 0; k < m; ++k) geom.push_back({ std::size_t(r.chance(5) ? 0 : r.below(maxl + 1)), std::size_t(r.chance(50) ? std::min(k + 1, m - 1) : r.below(m)) });
        one(words, std::size_t(r.chance(60) ? 0 : r.below(6)), geom, std::size_t(r.below(m)));
    }
    void script(const vp::J& j)
    {
        std::vector<ww::Word> words; std::vector<ww::Geometry> geom;
        for (auto& x : j["ws"].a) words.push_back({ std::size_t(x.a[0].n), std::size_t(x.a[1].n) });
        for (auto& x : j["geom"].a) geom.push_back({ std::size_t(x.a[0].n), std::size_t(x.a[1].n) });
        one(words, std::size_t(j["trail"].n), geom, 0);
    }
};

template<class C> struct Fmt {
    vp::Trace& t; vp::Rng& r;
    using F = core::BasicTextFormatter<C>; using S = std::basic_string<C>;
    std::string seq(const S& s) { std::string o = "["; for (std::size_t k = 0; k < s.size(); ++k) o += (k ? "," : "") + std::to_string(long(s[k])); return o + "]"; }
    std::string lines(const std::vector<S>& v) { std::string o = "["; for (std::size_t k = 0; k < v.size(); ++k) o += (k ? "," : "") + seq(v[k]); return o + "]"; }

    long narrow() { return r.chance(30) ? 0 : r.below(4); }
    typename F::Format format(std::string& json)
    {
        typename F::Format f; using A = typename F::Align;
        long width = r.chance(8) ? -1 : r.chance(40) ? r.below(12) : r.range(8, 40), offset = r.chance(60) ? 0 : r.below(6);
        long padl = narrow(), padr = narrow(), i1 = narrow(), i2 = narrow(), ir = narrow();
        bool wrap = !r.chance(10), justify = r.chance(35), clip = r.chance(25), fill = r.chance(25), norm = r.chance(40);
        int al = int(r.below(4));
        if (width >= 0) f.set_width(std::size_t(width)); else f.unset_width();
        f.set_offset(std::size_t(offset));
        if (r.chance(30)) { padr = padl; f.set_padding(std::size_t(padl)); } else { f.set_padding_left(std::size_t(padl)); f.set_padding_right(std::size_t(padr)); }
        switch (r.below(3)) {
            case 0: i2 = ir = i1; f.set_indent(std::size_t(i1)); break;
            case 1: i2 = i1; f.set_indent(std::size_t(i1), std::size_t(ir)); break;
            default: f.set_indent(std::size_t(i1), std::size_t(i2), std::size_t(ir));
        }
        f.set_word_wrap(wrap); f.set_justify(justify); f.set_clipping(clip); f.set_always_fill(fill); f.set_norm_whitespace(norm);
        f.set_align(al == 1 ? A::center : al == 2 ? A::right : A::left);
        auto b = [](bool v) { return v ? "true" : "false"; };
        char buf[600];
        std::snprintf(buf, sizeof buf, "{\"width\":%ld,\"offset\":%ld,\"padl\":%ld,\"padr\":%ld,\"first1\":%ld,\"first2\":%ld,\"rest\":%ld,\"wrap\":%s,\"justify\":%s,\"clip\":%s,\"fill\":%s,\"norm\":%s,\"align\":\"%s\"}",
                      width, offset, padl, padr, i1, i2, ir, b(wrap), b(justify), b(clip), b(fill), b(norm), al == 1 ? "center" : al == 2 ? "right" : "left");
        json = buf;
        if (clip) m_clip = true;
        return f;
    }
    bool m_clip = false;
    S text()
    {
        S s; if (r.chance(12)) return s;
        int n = int(r.chance(80) ? r.below(10) : r.below(20)); long maxw = r.chance(50) ? 4 : 9;
        bool single = r.chance(50);
        if (r.chance(20)) s.append(std::size_t(r.below(5)), C(' '));
        for (int k = 0; k < n; ++k) {
            if (k > 0) s.append(std::size_t(single ? 1 : r.range(1, 3)), C(' '));
            long m = r.chance(4) ? r.range(10, 20) : r.range(1, maxw);
            for (long i = 0; i < m; ++i) s += C('a' + r.below(26));
        }
        if (r.chance(15)) s.append(std::size_t(r.below(6)), C(' '));
        return s;
    }
    void put(F& f, const S& s)
    {
        std::size_t at = 0;
        while (at < s.size()) {
            std::size_t n = std::size_t(r.chance(50) ? long(s.size() - at) : r.range(1, long(s.size() - at)));
            if (r.chance(50)) f.write(S(s, at, n)); else f.out() << S(s, at, n);
            at += n;
            if (r.chance(10)) f.process_input();
            if (r.chance(5)) f.flush();
        }
    }
    void episode(long steps)
    {
        t.put(vp::Ev("reset"));
        std::basic_ostringstream<C> o; std::size_t seen = 0;
        typename F::Config config; config.high_quality_word_wrapper = r.chance(40); config.line_number_base = std::size_t(r.below(3));
        F f(o, config);
        // Only whole lines are looked at: each input line makes whole lines
        auto fresh = [&](bool last = false) {
            S all = o.str(); std::vector<S> v; std::size_t b = seen;
            for (std::size_t k = seen; k < all.size(); ++k) if (all[k] == C('\n')) { v.push_back(all.substr(b, k - b)); b = k + 1; }
            if (last || b < all.size()) v.push_back(all.substr(b));
            seen = all.size();
            return v;
        };
        std::string json; m_clip = false;
        f.set_format(format(json));
        for (long k = 0; k < steps; ++k) {
            bool hq = config.high_quality_word_wrapper;
            if (r.chance(30)) {
                m_clip = false;
                if (r.chance(30)) { f.push_format(); std::string other; auto g = format(other); f.set_format(g); f.pop_format(); m_clip = json.find("\"clip\":true") != std::string::npos; }
                else f.set_format(format(json));
            }
            // Where lines are cut off, one cannot tell how many words were on them
            if (hq && m_clip) { f.set_clipping(false); auto at = json.find("\"clip\":true"); json.replace(at, 11, "\"clip\":false"); m_clip = false; }
            if (!hq && r.chance(40)) {
                std::vector<S> ss; S all;
                for (long i = r.range(1, 4); i > 0; --i) { ss.push_back(text()); all += ss.back(); all += C('\n'); }
                put(f, all); f.process_input();
                t.put(vp::Ev("lines").raw("f", json).raw("ss", lines(ss)).raw("out", lines(fresh())));
            }
            else {
                S s = text(); bool last = k + 1 == steps && r.chance(60) && s.find_first_not_of(C(' ')) != S::npos;
                put(f, s);
                if (last) { f.finalize(); }
                else { put(f, S(1, C('\n'))); f.process_input(); }
                auto v = fresh(last);
                t.put(vp::Ev("line").raw("f", json).b("hq", hq).raw("s", seq(s)).raw("out", lines(v)));
            }
        }
    }
};

int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Rng r(a.seed); vp::Trace t(a.trace);
    if (std::getenv("VP_FORMATTER")) {
        Fmt<char> c { t, r }; Fmt<wchar_t> w { t, r };
        for (long e = 0; e < a.episodes; ++e) { if (r.chance(70)) c.episode(a.steps); else w.episode(a.steps); }
        return 0;
    }
    Run run { t, r, {} };
    for (auto& s : a.scripts) { t.put(vp::Ev("reset")); run.script(s); }
    for (long e = 0; e < a.episodes; ++e) { t.put(vp::Ev("reset")); for (long k = 0; k < a.steps; ++k) run.random(); }
}
