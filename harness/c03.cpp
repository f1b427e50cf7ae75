#include <algorithm>
#include "common.hpp"
#include "elem.hpp"
#include <memory>
#include <stdexcept>
#include <archon/core/flat_map.hpp>
#include <archon/core/flat_multimap.hpp>
#include <archon/core/flat_set.hpp>
#include <archon/core/flat_multiset.hpp>
using namespace archon;
using vp::Life;

static long g_cmp_arm = -1; // Number of comparisons until one throws

// Key that is ordered by k, with a tag that takes no part in comparisons
template<bool T> struct Key {
    int k, t;
    Key(int k_, int t_): k(k_), t(t_) { Life::born(this); }
    Key(const Key& o) noexcept: k(o.k), t(o.t) { Life::used(&o); Life::born(this); }
    ~Key() noexcept { Life::died(this); k = t = -9; }
    Key& operator=(const Key&) = delete;
    friend bool operator<(const Key& a, const Key& b) noexcept(!T)
    {
        Life::used(&a); Life::used(&b);
        if constexpr (T) if (g_cmp_arm >= 0 && g_cmp_arm-- == 0) throw vp::Boom();
        return a.k < b.k;
    }
};

struct Val {
    int v;
    Val(): v(0) { Life::tick(); Life::born(this); }
    Val(int x): v(x) { Life::tick(); Life::born(this); }
    Val(const Val& o): v(o.v) { Life::tick(); Life::used(&o); Life::born(this); }
    Val(Val&& o) noexcept: v(o.v) { Life::used(&o); o.v = -7; Life::born(this); }
    Val& operator=(const Val&) = default;
    ~Val() noexcept { Life::died(this); v = -9; }
};

template<class C, class K, bool multi> struct Driver {
    static constexpr bool map = requires { typename C::mapped_type; };
    vp::Trace& trace; vp::Rng& rng; std::unique_ptr<C> c; int tag = 0; int range = 6; bool can_throw;
    using Value = typename C::value_type;
    struct E { int k, t, v; };
    static E entry(const Value& x)
    {
        if constexpr (map) { Life::used(&x.first); Life::used(&x.second); return { x.first.k, x.first.t, x.second.v }; }
        else { Life::used(&x); return { x.k, x.t, 0 }; }
    }
    static Value make(const E& e) { if constexpr (map) return Value(K(e.k, e.t), Val(e.v)); else return Value(e.k, e.t); }
    static std::string text(const std::vector<E>& es)
    {
        std::string s = "[";
        for (auto& e : es) s += (s.size() > 1 ? ",[" : "[") + std::to_string(e.k) + "," + std::to_string(e.t) + "," + std::to_string(e.v) + "]";
        return s + "]";
    }
    void observe(vp::Ev& ev, bool threw, bool armed)
    {
        std::vector<E> es;
        if (c->size() < 1000) {
            const C& cc = *c;
            auto all = [&](auto i, auto end) { for (; i != end; ++i) es.push_back(entry(*i)); };
            switch (rng.below(3)) { case 0: all(cc.begin(), cc.end()); break; case 1: all(c->begin(), c->end()); break; default: all(cc.cbegin(), cc.cend()); }
        }
        ev.b("threw", threw).b("armed", armed).raw("c", text(es)).i("size", long(c->size())).b("empty", c->empty())
          .i("cap", long(c->capacity())).i("live", long(Life::live.size())).i("per", map ? 2 : 1).i("bad", Life::bad);
        trace.put(ev);
    }
    void reset() { c.reset(); c = std::make_unique<C>(); Life::bad = 0; tag = 0; trace.put(vp::Ev("reset").b("multi", multi)); }
    E fresh() { return { int(rng.range(1, range)), ++tag, map ? int(rng.range(0, 9)) : 0 }; }
    void arm(bool on) { if (on) { if (rng.chance(50)) Life::arm = rng.below(4); else g_cmp_arm = rng.below(6); } }
    void disarm() { Life::arm = -1; g_cmp_arm = -1; }
    void insert(E e, bool on)
    {
        bool threw = false; long pos = -1; bool ins = true;
        std::unique_ptr<Value> v(new Value(make(e)));
        arm(on);
        try {
            int how = int(rng.below(3));
            auto fin = [&](auto r) {
                if constexpr (multi) { ins = true; pos = r - c->begin(); } else { pos = r.first - c->begin(); ins = r.second; }
            };
            if (how == 0) fin(c->insert(std::as_const(*v)));
            else if (how == 1) fin(c->insert(std::move(*v)));
            else { if constexpr (map) fin(c->emplace(K(e.k, e.t), Val(e.v))); else fin(c->emplace(e.k, e.t)); }
        } catch (vp::Boom&) { threw = true; }
        disarm(); v.reset();
        vp::Ev ev("insert"); ev.i("k", e.k).i("t", e.t).i("v", e.v).i("pos", pos).b("ins", ins);
        observe(ev, threw, on);
    }
    void many(bool create, int n, bool on)
    {
        std::vector<E> es; for (int i = 0; i < n; ++i) es.push_back(fresh());
        bool threw = false; std::size_t before = c->size();
        {
            std::vector<Value> vs; for (auto& e : es) vs.push_back(make(e));
            if (create) {
                c.reset();
                arm(on);
                try {
                    auto x = [&](std::size_t i) -> const Value& { return vs[i]; };
                    if (n == 0) c = std::make_unique<C>(std::initializer_list<Value>{});
                    else if (n == 1) c = std::make_unique<C>(std::initializer_list<Value>{ x(0) });
                    else if (n == 2) c = std::make_unique<C>(std::initializer_list<Value>{ x(0), x(1) });
                    else c = std::make_unique<C>(std::initializer_list<Value>{ x(0), x(1), x(2) });
                    if (n > 3) es.resize(3);
                } catch (vp::Boom&) { threw = true; disarm(); c = std::make_unique<C>(); }
                disarm();
            }
            else {
                arm(on);
                try { c->insert(vs.begin(), vs.end()); } catch (vp::Boom&) { threw = true; }
                disarm();
            }
        }
        vp::Ev ev(create ? "create" : "range");
        // Number of entries processed before the exception (those whose tags are there, or that were not new)
        long m = 0;
        if (threw && !create) {
            if constexpr (multi) m = long(c->size() - before);
            else { std::vector<E> now; for (auto& x : std::as_const(*c)) now.push_back(entry(x));
                for (std::size_t i = 0; i < es.size(); ++i) for (auto& y : now) if (y.t == es[i].t) m = long(i) + 1; }
        }
        ev.raw("es", text(es)).i("n", m);
        observe(ev, threw, on);
    }
    void look(int k)
    {
        K key(k, 0);
        const C& cc = *c;
        bool con = rng.chance(50);
        long n = long(c->size());
        auto pos = [&](auto it) { return long(it - c->cbegin()); };
        long lo = con ? pos(cc.lower_bound(key)) : pos(c->lower_bound(key));
        long up = con ? pos(cc.upper_bound(key)) : pos(c->upper_bound(key));
        std::vector<long> er;
        if (con) { auto p = cc.equal_range(key); er = { pos(p.first), pos(p.second) }; } else { auto p = c->equal_range(key); er = { pos(p.first), pos(p.second) }; }
        long f = con ? pos(cc.find(key)) : pos(c->find(key));
        if (f < 0 || f > n) f = 1000;
        std::vector<long> at; bool hasat = false;
        if constexpr (map && !multi) { hasat = true; try { at.push_back(con ? cc.at(key).v : c->at(key).v); } catch (std::out_of_range&) {} }
        std::vector<int> rev; {
            auto all = [&](auto i, auto end) { for (; i != end; ++i) rev.push_back(entry(*i).k); };
            switch (rng.below(3)) { case 0: all(cc.rbegin(), cc.rend()); break; case 1: all(c->rbegin(), c->rend()); break; default: all(cc.crbegin(), cc.crend()); }
        }
        vp::Ev ev("look");
        ev.i("k", k).i("lo", lo).i("up", up).seq("er", er).i("find", f).i("count", long(c->count(key))).b("contains", c->contains(key))
          .b("hasat", hasat).seq("at", at).seq("rev", rev);
        trace.put(ev);
    }
    void step(bool arming)
    {
        bool on = arming && can_throw && rng.chance(40);
        switch (rng.below(14)) {
        case 0: case 1: case 2: case 3: insert(fresh(), on); break;
        case 4: many(false, int(rng.below(5)), on); break;
        case 5: if (rng.chance(20)) many(true, int(rng.below(4)), on); break;
        case 6: case 7: erase(int(rng.range(1, range)), on); break;
        case 8: if (rng.chance(15)) { c->clear(); vp::Ev ev("clear"); observe(ev, false, false); } break;
        case 9: assign(); break;
        case 10: room(); break;
        default: look(int(rng.range(0, range + 1)));
        }
    }
    void assign()
    {
        if constexpr (map && !multi) {
            E e = fresh();
            (*c)[K(e.k, e.t)] = Val(e.v);
            vp::Ev ev("assign"); ev.i("k", e.k).i("t", e.t).i("v", e.v); observe(ev, false, false);
        }
    }
    void erase(int k, bool on)
    {
        bool threw = false; long r = -1;
        if (on) g_cmp_arm = rng.below(5);
        try { K key(k, 0); r = long(c->erase(key)); } catch (vp::Boom&) { threw = true; }
        disarm();
        vp::Ev ev("erase"); ev.i("k", k).i("r", r); observe(ev, threw, on);
    }
    void room()
    {
        switch (rng.below(4)) {
        case 0: c->reserve(std::size_t(rng.below(12))); break;
        case 1: c->reserve_extra(std::size_t(rng.below(5))); break;
        case 2: c->shrink_to_fit(); break;
        default: { auto d = std::make_unique<C>(std::move(*c)); if (rng.chance(50)) c = std::move(d); else *c = std::move(*d); }
        }
        vp::Ev ev("room"); observe(ev, false, false);
    }
    void episodes(vp::Args& args, long n)
    {
        for (auto& s : args.scripts) {
            reset();
            for (auto& o : s.a) {
                int k = int(o["k"].n); const std::string& op = o["op"].s;
                if (op == "insert") { E e = fresh(); e.k = k; insert(e, false); }
                else if (op == "erase") erase(k, false);
                else if (op == "clear") { c->clear(); vp::Ev ev("clear"); observe(ev, false, false); }
                else if constexpr (map && !multi) { (*c)[K(k, ++tag)] = Val(4); vp::Ev ev("assign"); ev.i("k", k).i("t", tag).i("v", 4); observe(ev, false, false); }
            }
            for (int k = 0; k < 6; ++k) look(k);
        }
        for (long i = 0; i < n; ++i) { reset(); range = int(rng.range(2, 12)); for (long k = 0; k < args.steps; ++k) step(i % 2 == 1); }
        c.reset();
    }
};

template<class C, class K, bool multi> void go(vp::Args& a, vp::Trace& t, vp::Rng& r, long n, bool can_throw)
{
    Driver<C, K, multi> d { t, r, nullptr, 0, 6, can_throw };
    d.episodes(a, n);
}

int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Trace t(a.trace); vp::Rng r(a.seed);
    using K = Key<false>; using L = Key<true>; long n = a.episodes / 8;
    go<core::FlatMap<K, Val>, K, false>(a, t, r, n, false);
    go<core::FlatMultimap<K, Val, 3>, K, true>(a, t, r, n, false);
    go<core::FlatSet<K, 4>, K, false>(a, t, r, n, false);
    go<core::FlatMultiset<K>, K, true>(a, t, r, n, false);
    a.scripts.clear();
    go<core::FlatMap<L, Val, 2>, L, false>(a, t, r, n, true);
    go<core::FlatMultimap<L, Val>, L, true>(a, t, r, n, true);
    go<core::FlatSet<L>, L, false>(a, t, r, n, true);
    go<core::FlatMultiset<L, 5>, L, true>(a, t, r, n, true);
    if (!Life::live.empty()) { std::fprintf(stderr, "%zu objects are left\n", Life::live.size()); return 1; }
}
