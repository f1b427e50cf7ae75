// Driver for string templates (core/string_template.hpp).
#include "common.hpp"
#include <sstream>
#include <iomanip>
#include <memory>
#include <array>
#include <archon/core/string_template.hpp>
using namespace archon;

template<class C> struct Run {
    using V = std::basic_string_view<C>; using S = std::basic_string<C>; using OS = std::basic_ostream<C>;
    struct Context { int y; };
    using T = core::BasicStringTemplate<V, Context>;
    struct Punct : std::numpunct<C> { C do_thousands_sep() const override { return C('\''); } std::string do_grouping() const override { return "\3"; } };
    vp::Trace& t; vp::Rng& r;
    static std::string seq(const S& s) { std::string o = "["; for (std::size_t k = 0; k < s.size(); ++k) o += (k ? "," : "") + std::to_string(long(sizeof(C) == 1 ? (unsigned char)(s[k]) : s[k])); return o + "]"; }
    static S wide(const char* s) { return S(s, s + std::strlen(s)); }
    static constexpr int slots = 3;


    void episode(long steps, const std::vector<S>& given)
    {
        static const char* all[] = { "x", "y", "ab", "", "name", "{", "@", "z", "a b", "x}" };
        std::array<int, 3> n { int(r.below(300)) - 100, int(r.below(70000)), int(r.below(5)) }; std::array<S, 2> s;
        s[0] = wide("v@x"); s[1] = wide("");
        typename T::Parameters params; std::string pj; std::vector<const char*> names;
        auto note = [&](const char* name, const char* kind, int i) { pj += std::string(pj.empty() ? "" : ",") + "{\"name\":" + seq(wide(name)) + ",\"kind\":\"" + kind + "\",\"i\":" + std::to_string(i) + "}"; names.push_back(name); };
        for (const char* name : all) {
            if (r.chance(35)) continue;
            switch (r.below(8)) {
                case 6: { int* p = &n[2]; params[name] = [p](OS& out, const Context&) { out << (*p % 2 != 0); }; note(name, "bool", 3); break; }
                case 7: { int* p = &n[1]; params[name] = [p](OS& out, const Context&) { out << std::hex << std::boolalpha << std::left << *p; }; note(name, "hex", 2); break; }
                case 0: case 1: { int i = int(r.below(3)); params[name] = &n[std::size_t(i)]; note(name, "num", i + 1); break; }
                case 2: { int i = int(r.below(2)); params[name] = &s[std::size_t(i)]; note(name, "str", i + 4); break; }
                case 3: { params[name] = &Context::y; note(name, "ctx", 0); break; }
                case 4: { int* p = &n[1]; params[name] = [p](OS& out, const Context&) { out << std::hex << *p; }; note(name, "hex", 2); break; }
                default: { params[name] = [](OS& out, const Context& c) { out << (c.y + 1); }; note(name, "next", 0); }
            }
        }
        vp::Ev ev("reset");
        t.put(ev.i("slots", slots).raw("params", "[" + pj + "]").raw("vals", "[" + std::to_string(n[0]) + "," + std::to_string(n[1]) + "," + std::to_string(n[2]) + "," + seq(s[0]) + "," + seq(s[1]) + "]"));
        // The locale need not outlive the parser
        auto locale = std::make_unique<std::locale>(); typename T::Parser parser(*locale); locale.reset();
        std::array<C, 10> seed; typename T::Expander expander(core::Span<C>(seed.data(), std::size_t(r.below(11)))), expander2;
        std::locale grouping(std::locale::classic(), new Punct); typename T::Expander expander3(grouping), expander4(core::Span<C>(seed.data(), std::size_t(r.below(11))), grouping);
        std::vector<T> templ(slots);
        auto expand = [&](int slot) {
            Context c { int(r.below(2000)) - 1000 }; std::size_t w = 0; C fill = C(' '); bool left = false; S out, after;
            std::basic_ostringstream<C> o; bool group = r.chance(30), hex = false, alpha = false; T& te = templ[std::size_t(slot)];
            auto rest = [&](OS& q) { q << c.y << true; };
            auto by = [&](auto& x) { out = S(x.expand(te, c)); std::basic_ostringstream<C> q; if (group) q.imbue(grouping); rest(q); after = q.str(); };
            if (group) o.imbue(grouping);
            long how = r.below(6);
            if (how > 1) {
                if (n[0] >= 0 && n[2] >= 0 && n[1] >= 0 && c.y >= 0 && r.chance(40)) { hex = true; o << std::hex; }
                if (r.chance(40)) { alpha = true; o << std::boolalpha; }
            }
            switch (how) {
                case 0: if (group) by(expander3); else by(expander); break;
                case 1: if (group) by(expander4); else by(expander2); break;
                case 2: te.expand(o, c); out = o.str(); o.str(S()); rest(o); after = o.str(); break;
                default:
                    if (r.chance(70)) { w = std::size_t(r.chance(80) ? r.below(20) : r.below(120)); o << std::setw(int(w)); }
                    if (r.chance(40)) { fill = C('*'); o << std::setfill(fill); }
                    if (r.chance(40)) { left = true; o << std::left; }
                    o << core::expand(te, c); out = o.str(); o.str(S()); rest(o); after = o.str();
            }
            t.put(vp::Ev("expand").i("slot", slot + 1).i("ctx", c.y).b("hex", hex).b("alpha", alpha).i("sep", group ? 39 : 0).i("width", long(w)).i("fill", long(fill)).b("left", left).raw("out", seq(out)).raw("after", seq(after)));
        };
        auto parse = [&](const S& text) {
            int slot = int(r.below(slots)); long stop = 0; bool ok = false; std::vector<std::string> errs;
            // Exactly as much memory as there is text
            std::vector<C> mem(text.begin(), text.end()); V view(mem.data(), mem.size());
            bool ascii = true; for (C c : text) ascii = ascii && long(c) > 0 && long(c) < 127;
            std::string narrow; if (ascii) for (C c : text) narrow += char(c);
            bool by_c_str = ascii && r.chance(30);
            if (r.chance(40)) {
                stop = 1;
                try {
                    switch (r.below(2)) {
                        case 0: templ[std::size_t(slot)] = by_c_str ? parser.parse(narrow.c_str(), params) : parser.parse(view, params); break;
                        default: templ[std::size_t(slot)] = by_c_str ? T(narrow.c_str(), params) : T(view, params);
                    }
                    ok = true;
                }
                catch (std::exception&) { errs.push_back("thrown"); }
            }
            else {
                stop = r.chance(60) ? 0 : r.range(1, 3); long seen = 0;
                auto handler = [&](typename T::Parser::Error code, V) { errs.push_back(code == T::Parser::Error::bad_syntax ? "syntax" : "ref"); ++seen; return seen != stop; };
                ok = by_c_str ? parser.try_parse(narrow.c_str(), params, templ[std::size_t(slot)], handler) : parser.try_parse(view, params, templ[std::size_t(slot)], handler);
            }
            std::fill(mem.begin(), mem.end(), C('?'));
            t.put(vp::Ev("parse").raw("t", seq(text)).i("slot", slot + 1).i("stop", stop).b("ok", ok).strs("errs", errs));
            expand(slot);
            return slot;
        };
        auto text = [&] {
            S o; long m = r.chance(10) ? 0 : r.range(1, 10);
            for (long k = 0; k < m; ++k)
                switch (r.below(8)) {
                    case 0: o += wide("@{"); o += wide(all[r.below(10)]); o += C('}'); break;
                    case 1: if (!names.empty()) { o += wide("@{"); o += wide(r.pick(names)); o += C('}'); } break;
                    case 2: o += C('@'); o += C("xyz{}@a "[r.below(8)]); break;
                    case 3: o += wide("@@"); break;
                    case 4: if (r.chance(20)) { o += wide("@{"); } else if (r.chance(50)) o += C('@'); break;
                    case 5: { long x = r.below(8); if (x == 0) o += C(sizeof(C) == 1 ? 0xE6 : 0x20AC); else if (x == 1) o += C(0); else o += wide("%s"); break; }
                    default: for (long q = r.range(1, 4); q > 0; --q) o += C("abxyz {}.<>"[r.below(11)]);
                }
            return o;
        };
        std::size_t at = 0;
        for (long k = 0; k < steps || at < given.size(); ++k) {
            if (at < given.size()) { parse(given[at++]); continue; }
            switch (r.below(8)) {
                case 0: { int i = int(r.below(3)); n[std::size_t(i)] = int(r.chance(50) ? r.below(100) : r.below(1000000)) - (i == 1 ? 0 : 50); t.put(vp::Ev("set").i("i", i + 1).i("v", n[std::size_t(i)])); break; }
                case 1: { int i = int(r.below(2)); s[std::size_t(i)] = text(); t.put(vp::Ev("set").i("i", i + 4).raw("v", seq(s[std::size_t(i)]))); break; }
                case 2: { int a = int(r.below(slots)), b = int(r.below(slots)); if (a == b) break; templ[std::size_t(b)] = std::move(templ[std::size_t(a)]);
                    t.put(vp::Ev("move").i("from", a + 1).i("to", b + 1));
                    bool good = parser.try_parse(V(), params, templ[std::size_t(a)], [](auto, auto) { return true; });
                    t.put(vp::Ev("parse").raw("t", "[]").i("slot", a + 1).i("stop", 0).b("ok", good).raw("errs", "[]")); break; }
                case 3: { int slot = int(r.below(slots)); const char* nm = all[r.below(10)]; t.put(vp::Ev("refers").i("slot", slot + 1).raw("name", seq(wide(nm))).b("r", templ[std::size_t(slot)].refers_to(nm))); break; }
                case 4: { const char* nm = all[r.below(10)]; int i = int(r.below(3)); bool ok = true; if (!r.chance(30)) break;
                    try { params[nm] = &n[std::size_t(i)]; } catch (std::exception&) { ok = false; }
                    t.put(vp::Ev("define").raw("name", seq(wide(nm))).i("i", i + 1).b("ok", ok)); break; }
                case 5: case 6: parse(text()); break;
                default: expand(int(r.below(slots)));
            }
        }
    }
};

int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Rng r(a.seed); vp::Trace t(a.trace);
    Run<char> c { t, r }; Run<wchar_t> w { t, r };
    std::vector<std::string> g; std::vector<std::wstring> h;
    auto flush = [&] { if (!g.empty()) c.episode(0, g); if (!h.empty()) w.episode(0, h); g.clear(); h.clear(); };
    for (auto& s : a.scripts) {
        std::string x; std::wstring y; for (auto& v : s["t"].a) { x += char(v.n); y += wchar_t(v.n); }
        if (r.chance(70)) g.push_back(x); else h.push_back(y);
        if (g.size() + h.size() > 30) flush();
    }
    flush();
    for (long e = 0; e < a.episodes; ++e) { if (r.chance(60)) c.episode(a.steps, {}); else w.episode(a.steps, {}); }
}
