// Drives three containers of type C and records every operation.
#include "common.hpp"
#include "elem.hpp"
#include <algorithm>
#include <list>
#include <utility>
#include <stdexcept>
#include <memory>
#include <sstream>
#include <iterator>

namespace vp {

struct Op { std::string op; int o = 1, p = 1, i = 0, j = 0, n = 0; long arm = -1; int var = 0; };

template<class C, class E, bool tracked, bool movable> class SeqDriver {
public:
    static constexpr bool vector = requires(C& c) { c.data(); };
    SeqDriver(Trace& t, Rng& r): m_trace(t), m_rng(r) {}
    void reset()
    {
        for (auto& c : m_c) { c.reset(); c = std::make_unique<C>(); }
        Life::bad = 0;
        m_next = 1;
        m_trace.put(Ev("reset"));
    }
    C& get(int o) { return *m_c[o - 1]; }
    int fresh() { int v = m_next; m_next = m_next % 97 + 1; return v; }

    static std::vector<int> read(C& c)
    {
        std::vector<int> v;
        if (c.size() > 500) return v;
        static unsigned turn = 0;
        auto all = [&](auto i, auto end) { for (; i != end; ++i) { v.push_back(val(*i)); if (v.size() > 600) break; } };
        const C& k = c;
        switch (turn++ % 4) {
        case 0: all(c.begin(), c.end()); break;
        case 1: all(k.begin(), k.end()); break;
        case 2: all(c.cbegin(), c.cend()); break;
        default: all(k.begin(), k.cend());
        }
        return v;
    }

    template<class F> static void list(const std::vector<E>& e, F f)
    {
        switch (e.size()) {
        case 0: f({}); break;
        case 1: f({ e[0] }); break;
        case 2: f({ e[0], e[1] }); break;
        default: f({ e[0], e[1], e[2] });
        }
    }
    // Whether the elements are stored outside the vector object
    static bool owns(const C& c)
    {
        if constexpr (requires { c.data(); }) {
            auto a = reinterpret_cast<std::uintptr_t>(&c), b = reinterpret_cast<std::uintptr_t>(c.data());
            return b != 0 && !(a <= b && b < a + sizeof (C));
        }
        return false;
    }
    void apply(const Op& op)
    {
        C& c = get(op.o);
        Ev ev("op");
        ev.s("op", op.op).i("o", op.o).i("p", op.p).i("i", op.i).i("j", op.j).i("n", op.n);
        int v = fresh();
        bool threw = false;
        long r = -1;
        std::vector<int> s;
        bool is_default = false;
        // Values to append etc.
        if (op.op == "append" || op.op == "assign" || op.op == "construct") {
            bool same = (op.var % 3 == 1);
            for (int k = 0; k < op.n; ++k) s.push_back(same ? v : fresh());
            if (op.op == "construct" && op.var % 3 == 2) { is_default = true; for (auto& x : s) x = 0; }
        }
        else if (op.op == "append_each" || op.op == "assign_each") for (int k = 0; k < op.n; ++k) s.push_back(fresh());
        if (op.op == "resize" && op.var % 2 == 1) v = 0;
        std::vector<E> elems; // Sources, built before arming
        std::list<int> lst(s.begin(), s.end());
        E* value = nullptr; std::unique_ptr<E> value_holder;
        {
            Life::arm = -1;
            for (int x : s) elems.push_back(E(x));
            value_holder = std::make_unique<E>(v); value = value_holder.get();
        }
        // Given as a list that is written out (of copies, so nothing is to throw)
        bool listed = op.arm < 0 && op.n <= 3 && op.var % 5 == 2;
        // Iterators taken before the operation
        using It = decltype(c.begin());
        std::vector<It> its;
        It old_end = c.end();
        std::size_t cap0 = c.capacity(), size0 = c.size();
        if (size0 < 200) for (auto it = c.begin(); it != c.end(); ++it) its.push_back(it);
        if constexpr (tracked) Life::arm = op.arm;
        try {
            if (op.op == "push_back") {
                if (op.var % 3 == 0) r = val(c.push_back(*value));
                else if (op.var % 3 == 1) r = val(c.push_back(std::move(*value)));
                else r = val(c.emplace_back(v));
            }
            else if (op.op == "pop_back") c.pop_back();
            else if (op.op == "clear") c.clear();
            else if (op.op == "resize") { if (op.var % 2 == 1) c.resize(op.n); else c.resize(op.n, *value); }
            else if (op.op == "append") {
                if (listed) list(elems, [&](std::initializer_list<E> l) { c.append(l); });
                else if (op.var % 3 == 1) { if (op.n > 0) c.append(op.n, elems[0]); else c.append(0, *value); }
                else if (op.var % 3 == 2) c.append(elems.data(), elems.data() + elems.size());
                else c.append(elems.begin(), elems.end());
            }
            else if (op.op == "append_each") c.append(lst.begin(), lst.end());
            else if (op.op == "assign") {
                if (listed) list(elems, [&](std::initializer_list<E> l) {
                    if constexpr (!vector) { if (op.var % 2) { c = l; return; } }
                    c.assign(l);
                });
                else if (op.var % 3 == 1) { if (op.n > 0) c.assign(op.n, elems[0]); else c.assign(0, *value); }
                else c.assign(elems.begin(), elems.end());
            }
            else if (op.op == "assign_each") c.assign(lst.begin(), lst.end());
            else if (op.op == "construct") {
                m_c[op.o - 1].reset();
                if (is_default) m_c[op.o - 1] = std::make_unique<C>(std::size_t(op.n));
                else if (listed) list(elems, [&](std::initializer_list<E> l) { m_c[op.o - 1] = std::make_unique<C>(l); });
                else if (op.var % 3 == 1 && op.n > 0) m_c[op.o - 1] = std::make_unique<C>(std::size_t(op.n), elems[0]);
                else m_c[op.o - 1] = std::make_unique<C>(elems.begin(), elems.end());
            }
            else if (op.op == "reserve") c.reserve(op.n);
            else if (op.op == "reserve_extra") c.reserve_extra(op.n);
            else if (op.op == "shrink") c.shrink_to_fit();
            else if (op.op == "erase") {
                if constexpr (movable) {
                    auto it = op.var % 2 && op.j == op.i + 1 ? c.erase(c.cbegin() + op.i) : c.erase(c.cbegin() + op.i, c.cbegin() + op.j);
                    r = it - c.begin();
                }
            }
            else extra(op, c, v, *value, r);
        }
        catch (Boom&) { threw = true; if (!m_c[op.o - 1]) { Life::arm = -1; m_c[op.o - 1] = std::make_unique<C>(); } }
        Life::arm = -1;
        elems.clear();
        value_holder.reset();
        C& d = get(op.o);
        long endpos = -1;
        if constexpr (!vector) if (!threw && d.size() <= cap0 && cap0 > 0) {
            if (op.op == "pop_front" || op.op == "push_front" || op.op == "push_back") endpos = old_end - d.begin();
            else if (op.op == "pop_back") endpos = its.back() - d.begin();
        }
        // What the iterators that must still be valid refer to
        std::vector<int> kept;
        if (!threw && d.size() <= cap0 && its.size() == size0) {
            std::size_t a = 0, b = 0; // Range of old positions
            if (op.op == "push_back" || op.op == "append" || op.op == "append_each" || op.op == "push_front") b = size0;
            else if (op.op == "resize" || op.op == "pop_back" || op.op == "clear") b = std::min(size0, d.size());
            else if (op.op == "pop_front") { a = 1; b = size0; }
            else if (vector && (op.op == "erase" || op.op == "insert")) b = std::size_t(op.i);
            for (std::size_t k = a; k < b; ++k) kept.push_back(val(*its[k]));
        }
        ev.i("v", v).seq("s", s).i("r", r).b("threw", threw).b("armed", op.arm >= 0);
        ev.seq("c", read(d)).i("size", long(d.size())).i("cap", long(std::min<std::size_t>(d.capacity(), 100000)));
        bool owned = false; if constexpr (vector) owned = owns(d); ev.b("vec", vector).b("owned", owned).i("cap0", long(std::min<std::size_t>(cap0, 100000))).seq("kept", kept).i("endpos", endpos);
        long live = 0;
        if constexpr (tracked) live = long(Life::live.size());
        else for (auto& x : m_c) live += long(x->size());
        ev.i("live", live).i("bad", Life::bad);
        m_trace.put(ev);
    }

    void extra(const Op& op, C& c, int v, E& value, long& r)
    {
        if (op.op == "push_front") {
            if constexpr (requires { c.push_front(value); }) {
                if (op.var % 3 == 0) r = val(c.push_front(value));
                else if (op.var % 3 == 1) r = val(c.push_front(std::move(value)));
                else r = val(c.emplace_front(v));
            }
        }
        else if (op.op == "pop_front") { if constexpr (requires { c.pop_front(); }) c.pop_front(); }
        else if (op.op == "insert") {
            if constexpr (movable && requires { c.emplace(c.cbegin(), v); }) r = c.emplace(c.cbegin() + op.i, v) - c.begin();
        }
        else if (op.op == "copy_construct") {
            if constexpr (std::is_copy_constructible_v<C>) { m_c[op.o - 1].reset(); m_c[op.o - 1] = std::make_unique<C>(std::as_const(get(op.p))); }
        }
        else if (op.op == "copy_assign") { if constexpr (std::is_copy_assignable_v<C>) c = std::as_const(get(op.p)); }
        else if (op.op == "move_construct") { if constexpr (movable || std::is_copy_constructible_v<C>) { m_c[op.o - 1].reset(); m_c[op.o - 1] = std::make_unique<C>(std::move(get(op.p))); } }
        else if (op.op == "move_assign") { if constexpr (movable || std::is_copy_constructible_v<C>) c = std::move(get(op.p)); }
        else if (op.op == "swap") { if constexpr (requires { c.swap(c); }) { if (op.var % 2) c.swap(get(op.p)); else swap(c, get(op.p)); } }
        else { std::fprintf(stderr, "unknown op %s\n", op.op.c_str()); std::exit(3); }
    }

    void look(int o, int p)
    {
        C& c = get(o); const C& k = c; const C& q = get(p);
        std::vector<int> rev, idx, ia, ends; std::vector<int> at;
        if (m_rng.chance(40)) for (auto i = c.rbegin(); i != c.rend(); ++i) rev.push_back(val(*i));
        else if (m_rng.chance(40)) for (auto i = k.rbegin(); i != k.rend(); ++i) rev.push_back(val(*i));
        else for (auto i = k.crbegin(); i != k.crend(); i++) rev.push_back(val(*i));
        for (std::size_t i = 0; i < c.size(); ++i) idx.push_back(m_rng.chance(50) ? val(c[i]) : val(k[i]));
        long n = long(c.size());
        bool ok = true;
        for (long i = 0; i < n; ++i) {
            long f = m_rng.range(0, n); // Start anywhere and move to i
            auto it = c.begin(); it += f;
            auto kt = k.end(); kt -= (n - f);
            if (!(kt - k.begin() == f && k.end() - kt == n - f)) ok = false;
            if (f < i) it = it + (i - f); else it = it - (f - i);
            if ((it - c.begin()) != i) ok = false;
            if ((it < c.begin() + f) != (i < f) || (it <= c.begin() + f) != (i <= f) || (it > c.begin() + f) != (i > f) || (it >= c.begin() + f) != (i >= f) || (it == c.begin() + f) != (i == f)) ok = false;
            ia.push_back(m_rng.chance(50) ? val(*it) : val(c.begin()[i]));
            if (i > 0) { auto jt = it; --jt; if (jt - c.begin() != i - 1) ok = false; jt++; if (jt != it) ok = false; }
        }
        if (n > 0) { ends.push_back(m_rng.chance(50) ? val(c.front()) : val(k.front())); ends.push_back(m_rng.chance(50) ? val(c.back()) : val(k.back())); }
        std::string ats = "[";
        for (long i = 0; i < n + 2; ++i) {
            bool in = false;
            try { (void)val(m_rng.chance(50) ? c.at(i) : k.at(i)); in = true; } catch (std::out_of_range&) {}
            if (i) ats += ",";
            ats += in ? "true" : "false";
        }
        ats += "]";
        std::string cmp = "[";
        bool bs[6] = { k == q, k != q, k < q, k > q, k <= q, k >= q };
        for (int i = 0; i < 6; ++i) { if (i) cmp += ","; cmp += bs[i] ? "true" : "false"; }
        cmp += "]";
        m_trace.put(Ev("look").i("o", o).i("p", p).i("size", n).b("empty", c.empty()).seq("rev", rev).seq("idx", idx).seq("ia", ia)
                    .i("dist", ok ? long(c.end() - c.begin()) : -1).seq("ends", ends).raw("at", ats).raw("cmp", cmp));
    }

    bool allowed(const Op& op)
    {
        long n = long(get(op.o).size());
        if (op.op == "pop_back" || op.op == "pop_front") return n > 0;
        if (op.op == "erase") return op.i <= op.j && op.j <= n;
        if (op.op == "insert") return op.i <= n;
        if (op.op == "move_construct" || op.op == "move_assign" || op.op == "copy_construct") return op.o != op.p;
        return true;
    }

    void random_episode(const std::vector<std::string>& ops, long steps, int max, bool arm)
    {
        reset();
        for (long k = 0; k < steps; ++k) {
            Op op;
            op.op = m_rng.pick(ops);
            op.o = int(m_rng.chance(70) ? 1 : m_rng.range(2, 3)); op.p = int(m_rng.range(1, 3)); op.var = int(m_rng.below(30));
            long n = long(get(op.o).size());
            op.i = int(m_rng.range(0, n)); op.j = int(m_rng.range(op.i, n));
            if (op.op == "insert") op.j = 0;
            op.n = int(m_rng.chance(70) ? m_rng.range(0, 4) : m_rng.range(0, max));
            if (op.op == "resize" && m_rng.chance(60)) op.n = int(m_rng.range(std::max(0l, n - 4), n + 4));
            if (n > max && op.op != "erase" && op.op != "clear" && op.op != "pop_front" && op.op != "pop_back") continue;
            if (arm && m_rng.chance(35)) op.arm = m_rng.chance(50) ? m_rng.below(6) : m_rng.below(op.n + 1);
            if (!allowed(op)) continue;
            apply(op);
            if (m_rng.chance(15)) look(op.o, int(m_rng.range(1, 3)));
        }
    }

    void script(const J& s, const std::vector<std::string>& ops)
    {
        reset();
        for (auto& x : s.a) {
            Op op;
            op.op = x["op"].s;
            if (x.has("i")) op.i = int(x["i"].n);
            if (x.has("j")) op.j = int(x["j"].n);
            if (x.has("n")) op.n = int(x["n"].n);
            if (x.has("o")) op.o = int(x["o"].n);
            if (x.has("p")) op.p = int(x["p"].n);
            op.var = int(m_rng.below(30));
            if (op.op == "append" && op.n == 1 && m_rng.chance(50)) op.op = "push_back";
            if (std::find(ops.begin(), ops.end(), op.op) == ops.end() || !allowed(op)) continue;
            // The last operation is the one the script is for
            if (tracked && &x == &s.a.back() && m_rng.chance(40)) op.arm = m_rng.below(op.n + 1);
            apply(op);
        }
        look(1, 2);
    }
    void finish() { for (auto& c : m_c) c.reset(); }
private:
    Trace& m_trace; Rng& m_rng;
    std::unique_ptr<C> m_c[3] { std::make_unique<C>(), std::make_unique<C>(), std::make_unique<C>() };
    int m_next = 1;
};

} // namespace vp
