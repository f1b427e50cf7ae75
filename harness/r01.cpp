// Drives render::impl::KeyBindings and records which handlers are called.
#include "common.hpp"
#include <chrono>
#include <stdexcept>
#include <archon/render/impl/key_bindings.hpp>
using namespace archon;
using KB = render::impl::KeyBindings;
using Id = KB::KeyIdent;

constexpr int num_keys = 5, num_handlers = 4;
struct Run {
    vp::Trace& t; vp::Rng& r;
    std::unique_ptr<KB> kb; std::vector<render::KeyHandlerIdent> hs;
    std::vector<long> calls; long limit = -1; bool answer = true, thr = false; // `answer`: what the call number `limit` returns
    bool blurring = false; long clock = 0; std::vector<Id> ids; std::vector<char> down;

    void reset()
    {
        kb = std::make_unique<KB>(); hs.clear(); blurring = false; down.assign(num_keys, 0);
        clock = r.chance(20) ? -100000 : r.range(0, 1000000);
        auto base = display::KeyCode::code_type(r.range(0, 3) * 1000);
        bool sw = r.chance(50);
        ids = { Id(display::KeyCode { base + 1 }), Id(sw ? display::MouseButton::x2 : display::MouseButton::left), Id(display::KeyCode { base }),
                Id(display::MouseButton::right), Id(display::KeyCode { base + 70000 }) };
        for (int i = 0; i < num_handlers; ++i)
            hs.push_back(kb->register_handler("handler", [this, i](bool d) {
                calls.push_back((i + 1) * 2 + d);
                bool last = long(calls.size()) == limit;
                if (last && !answer) { if (thr) throw std::runtime_error("x"); return false; }
                return true;
            }));
        t.put(vp::Ev("reset"));
    }
    template<class F> void op(vp::Ev ev, bool a, long lim, F f)
    {
        calls.clear(); limit = lim; answer = a; thr = r.chance(15); bool res;
        try { res = f(); } catch (std::runtime_error&) { res = false; }
        bool all = true; if (limit > 0 && long(calls.size()) >= limit) all = a;
        ev.b("a", all).seq("c", calls).b("r", res); t.put(ev);
    }
    void bind(int k, unsigned m, int n, int h) { kb->bind_key(ids[std::size_t(k)], { m }, { n }, hs[std::size_t(h - 1)]); down[std::size_t(k)] = 0; vp::Ev ev("bind"); ev.i("k", k).i("m", m).i("n", n).i("h", h).raw("c", "[]").b("r", true); t.put(ev); }
    void mode(unsigned m) { kb->set_modifier_mode({ m }); vp::Ev ev("mode"); ev.i("m", m).i("got", kb->get_modifier_mode().value).raw("c", "[]").b("r", true); t.put(ev); }
    void press(int k, bool d, bool a)
    {
        vp::Ev ev(d ? "down" : "up"); ev.i("k", k).i("t", clock); down[std::size_t(k)] = d;
        op(ev, a, 1, [&] { std::chrono::milliseconds ts(clock); return d ? kb->on_keydown(ids[std::size_t(k)], ts) : kb->on_keyup(ids[std::size_t(k)], ts); });
    }
    // interrupted at call number `lim` (0: not interrupted)
    void blur(long lim)
    {
        bool res = true; bool was = blurring; vp::Ev ev(was ? "resume" : "blur");
        op(ev, false, lim ? lim : -1, [&] { res = false; res = was ? kb->resume_incomplete_on_blur_if_any() : kb->on_blur(); return res; });
        blurring = !res; if (!blurring) down.assign(num_keys, 0);
    }
    void step()
    {
        clock += r.chance(60) ? r.range(0, 120) : r.chance(50) ? r.range(248, 252) : r.range(0, 600);
        if (r.chance(1)) { bind(int(r.below(num_keys)), unsigned(r.below(3)), int(r.range(1, 3)), int(r.range(1, num_handlers))); return; }
        if (r.chance(3)) { blur(0); return; }
        if (blurring) { blur(r.chance(60) ? 1 : r.range(0, 3)); return; }
        if (r.chance(5)) { blur(r.range(0, 3)); return; }
        if (r.chance(8)) { mode(unsigned(r.below(3))); return; }
        if (r.chance(3)) { vp::Ev ev("resume"); op(ev, true, -1, [&] { return kb->resume_incomplete_on_blur_if_any(); }); return; }
        int k = int(r.below(r.chance(50) ? 2 : num_keys)); bool d = !down[std::size_t(k)]; if (r.chance(10)) d = !d;
        press(k, d, !r.chance(20));
    }
    void episode(long steps)
    {
        reset();
        long n = r.range(0, 12);
        for (long i = 0; i < n; ++i) bind(int(r.below(num_keys - 1)), unsigned(r.chance(60) ? 0 : r.below(3)), int(r.chance(50) ? 1 : r.range(1, 3)), int(r.range(1, num_handlers)));
        for (long i = 0; i < steps; ++i) step();
    }
    void script(const vp::J& j)
    {
        reset(); long base = clock;
        for (auto& o : j.a) {
            const std::string& n = o["o"].s; clock = base + o["t"].n;
            if (n == "bind") bind(int(o["k"].n), unsigned(o["m"].n), int(o["n"].n), int(o["h"].n));
            else if (n == "mode") mode(unsigned(o["m"].n));
            else if (n == "down" || n == "up") press(int(o["k"].n), n == "down", o["r"].b);
            else blur(o["r"].b ? 0 : o["n"].n);
        }
        if (blurring) blur(0);
        press(0, false, true); press(1, false, true);
    }
};
int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Trace t(a.trace); vp::Rng r(a.seed); Run x { t, r };
    for (auto& s : a.scripts) x.script(s);
    for (long i = 0; i < a.episodes; ++i) x.episode(a.steps);
}
