// Driver for CSS colors (util/css_color.hpp).
#include "common.hpp"
#include <cmath>
#include <stdexcept>
#include <archon/util/css_color.hpp>
using namespace archon;
using CC = util::CssColor;

std::string esc(std::string_view s) { std::string o; for (char c : s) o += (c >= 0x20 && c < 0x7F) ? c : '?'; return o; }
struct Run {
    vp::Trace& t; vp::Rng& r;
    static std::string name_of(CC::Name n) { core::Buffer<char> b; return std::string(CC(n).format(b)); }
    static std::string four(double a, double b, double c, double d)
    {
        std::string o = "["; const char* sep = "";
        for (double x : { a, b, c, d }) { o += sep + std::to_string(std::lround(x * 1000)); sep = ","; }
        return o + "]";
    }
    static std::string hex4(CC::Hex h) { return "[" + std::to_string(h.r) + "," + std::to_string(h.g) + "," + std::to_string(h.b) + "," + std::to_string(h.a) + "]"; }
    static std::string json(const CC& c)
    {
        std::string k, v; int n = 0; CC::Hex h; CC::Name m; CC::Rgb a; CC::RgbP p; CC::Hsl s;
        if (c.get_if(h)) { ++n; k = "hex"; v = hex4(h); }
        if (c.get_if(m)) { ++n; k = "name"; v = "[\"" + name_of(m) + "\"]"; }
        if (c.get_if(a)) { ++n; k = "rgb"; v = four(a.r, a.g, a.b, a.a); }
        if (c.get_if(p)) { ++n; k = "rgbp"; v = four(p.r, p.g, p.b, p.a); }
        if (c.get_if(s)) { ++n; k = "hsl"; v = four(s.h, s.s, s.l, s.a); }
        if (n != 1) return "{\"k\":\"several\"}";
        return "{\"k\":\"" + k + "\",\"c\":" + v + "}";
    }
    // Is the color of a kind for which the conversion to hexadecimal is specified?
    static bool hexable(const CC& c)
    {
        auto tenth = [](double x) { double y = x * 10; return std::abs(y - std::lround(y)) < 1e-4 && std::abs(x) <= 2000; };
        auto hundredth = [](double x) { double y = x * 100; return std::abs(y - std::lround(y)) < 1e-4 && std::abs(x) <= 2000; };
        CC::Rgb a; CC::RgbP p; CC::Hsl s;
        if (c.get_if(a)) return tenth(a.r) && tenth(a.g) && tenth(a.b) && hundredth(a.a);
        if (c.get_if(p)) return tenth(p.r) && tenth(p.g) && tenth(p.b) && hundredth(p.a);
        if (c.get_if(s)) { auto whole = [](double x) { return x == std::floor(x); }; return whole(s.h) && whole(s.s) && whole(s.l) && std::abs(s.h) < 1000 && s.s >= 0 && s.s <= 100 && s.l >= 0 && s.l <= 100 && hundredth(s.a); }
        return true;
    }
    void parse(const std::string& text)
    {
        std::vector<char> mem(text.begin(), text.end());
        CC c = CC::hex(1, 2, 3, 4);
        if (r.chance(30)) c = CC::rgb(1, 2, 3, 0.5f);
        std::string before = json(c);
        bool ok = c.parse(core::StringSpan<char>(mem.data(), mem.size()));
        bool hexed = ok && hexable(c);
        t.put(vp::Ev("parse").chars("t", text).s("s", esc(text)).b("ok", ok).raw("c", json(c)).b("same", json(c) == before).b("hexed", hexed).raw("hex", hexed ? hex4(c.get_as_hex()) : "[]"));
    }
    void format(const CC& c)
    {
        core::Buffer<char> buf(std::size_t(r.below(10))); CC::FormatConfig cf; cf.disable_short_hex_form = r.chance(50);
        std::string text; bool before = true;
        if (r.chance(50)) text = std::string(r.chance(50) && !cf.disable_short_hex_form ? c.format(buf) : c.format(buf, cf));
        else {
            // After something that is there already
            core::Buffer<char> big(std::size_t(r.range(3, 6))); std::memcpy(big.data(), "abc", 3); std::size_t off = 3;
            c.format(big, off, cf); text = std::string(big.data() + 3, off - 3); before = std::memcmp(big.data(), "abc", 3) == 0;
        }
        CC back; bool ok = back.parse(text); bool hexed = hexable(c);
        t.put(vp::Ev("format").raw("c", json(c)).b("short", !cf.disable_short_hex_form).chars("t", text).s("s", esc(text)).raw("back", ok ? json(back) : "{\"k\":\"none\"}").b("before", before)
              .b("hexed", hexed).raw("hex", hexed ? hex4(c.get_as_hex()) : "[]"));
    }
    float num(long max) { switch (r.below(6)) { case 0: return 0; case 1: return float(max); case 2: return float(r.below(max + 1)); case 3: return float(double(r.below(10 * max + 1)) / 10); case 4: return float(double(r.below(max * 10 + 1)) / 10 - double(max) / 4); default: return float(r.range(-20, max + 100)); } }
    float alpha() { return r.chance(30) ? 1.0f : r.chance(20) ? 0.0f : float(double(r.below(101)) / 100); }
    std::uint8_t comp() { return std::uint8_t(r.chance(40) ? 17 * r.below(16) : r.chance(30) ? 255 * r.below(2) : r.below(256)); }
    CC color()
    {
        switch (r.below(6)) {
            case 0: case 1: return CC::hex(comp(), comp(), comp(), r.chance(50) ? 255 : comp());
            case 2: return CC::name(std::size_t(r.below(long(CC::get_num_named_colors()))));
            case 3: return CC::rgb(num(255), num(255), num(255), alpha());
            case 4: return CC::rgb_p(num(100), num(100), num(100), alpha());
            default: if (r.chance(60)) return CC::hsl(float(r.range(-720, 720)), float(r.below(101)), float(r.below(101)), alpha());
                return CC::hsl(num(360), num(100), num(100), alpha());
        }
    }
    std::string text()
    {
        core::Buffer<char> b; std::string s(color().format(b));
        if (r.chance(20)) { std::string q; for (char c : s) if (c != ' ') q += c; s = q; }
        if (r.chance(10)) for (char& c : s) { if (s[0] == '#' && c >= 'A' && c <= 'F') c = char(c + 32); }
        static const char odd[] = "#(),% 0159.-+agAGrbhsl\0\x80";
        for (long k = r.chance(40) ? 0 : r.below(4); k > 0; --k) {
            std::size_t at = std::size_t(r.below(long(s.size()) + 1)); char ch = odd[r.below(long(sizeof odd) - 1)];
            switch (r.below(4)) {
                case 0: s.insert(at, 1, ch); break;
                case 1: if (at < s.size()) s[at] = ch; break;
                case 2: if (at < s.size()) s.erase(at, 1); break;
                default: if (at < s.size()) s = s.substr(0, at); break;
            }
        }
        return s;
    }
    void tables()
    {
        std::vector<std::string> names; bool beyond = true;
        std::size_t n = CC::get_num_named_colors();
        for (std::size_t k = 0; k < n; ++k) names.push_back(name_of(CC::Name { k }));
        try { CC::name(n); } catch (std::out_of_range&) { beyond = false; }
        t.put(vp::Ev("names").strs("names", names).b("beyond", beyond));
        std::vector<std::string> tries = names;
        for (auto& x : names) { tries.push_back(x + "x"); tries.push_back(x.substr(0, x.size() - 1)); std::string u = x; u[0] = char(u[0] - 32); tries.push_back(u); }
        tries.push_back(""); tries.push_back("zzz"); tries.push_back("a");
        for (auto& x : tries) {
            CC::Name m { 0 }; bool ok = CC::find_named_color_by_name(x, m);
            t.put(vp::Ev("byname").s("s", x).b("ok", ok).raw("v", ok ? hex4(CC::get_named_color(m)) : "[]"));
            parse(x);
        }
        auto value = [&](CC::Hex h) { CC::Name m { 0 }; bool ok = CC::find_named_color_by_value(h, m); t.put(vp::Ev("byvalue").raw("v", hex4(h)).b("ok", ok).s("s", ok ? name_of(m) : "")); };
        for (std::size_t k = 0; k < n; ++k) {
            CC::Hex h = CC::get_named_color(CC::Name { k }); value(h); format(CC::name(k));
            for (int d : { -1, 1 }) { CC::Hex g = h; switch (r.below(4)) { case 0: g.r = std::uint8_t(g.r + d); break; case 1: g.g = std::uint8_t(g.g + d); break; case 2: g.b = std::uint8_t(g.b + d); break; default: g.a = std::uint8_t(g.a + d); } value(g); }
        }
        value({ 0, 0, 0, 0 }); value({ 255, 255, 255, 255 }); value({ 255, 255, 255, 0 });
    }
};
int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Rng r(a.seed); vp::Trace t(a.trace);
    Run x { t, r };
    t.put(vp::Ev("reset")); x.tables();
    for (auto& s : a.scripts) { std::string q; for (auto& v : s["t"].a) q += char(v.n); x.parse(q); }
    for (long k = 0; k < a.episodes; ++k) { t.put(vp::Ev("reset")); for (long j = 0; j < a.steps; ++j) { if (r.chance(50)) x.format(x.color()); else x.parse(x.text()); } }
}
