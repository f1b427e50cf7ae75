#include "common.hpp"
#include <limits>
#include <memory>
#include <ios>
#include <archon/core/memory_input_stream.hpp>
#include <archon/core/memory_output_stream.hpp>
#include <archon/core/seed_memory_output_stream.hpp>
using namespace archon;

constexpr int pad = 8;
template<class C> struct Base {
    vp::Trace& t; vp::Rng& r;
    static constexpr C guard = C(0x5A);
    std::unique_ptr<C[]> mem; std::size_t cap = 0;   // with guards on both sides
    void make(std::size_t n) { cap = n; mem.reset(new C[n + 2 * pad]); for (std::size_t i = 0; i < n + 2 * pad; ++i) mem[i] = guard; }
    C* data() { return mem.get() + pad; }
    bool guards() { for (int i = 0; i < pad; ++i) if (mem[i] != guard || mem[cap + pad + i] != guard) return false; return true; }
    static long num(C c) { return long(std::make_unsigned_t<C>(c)); }
    static std::vector<long> nums(const C* p, std::size_t n) { std::vector<long> v; for (std::size_t i = 0; i < n; ++i) v.push_back(num(p[i])); return v; }
    C ch() { return C(r.chance(80) ? r.range(1, 9) : r.chance(50) ? 0 : 255); }
    std::vector<C> str(long n) { std::vector<C> v; for (long i = 0; i < n; ++i) v.push_back(ch()); return v; }
    static std::ios_base::seekdir dir(const std::string& f) { return f == "beg" ? std::ios_base::beg : f == "cur" ? std::ios_base::cur : std::ios_base::end; }
    static long bits(std::ios_base::iostate s) { return ((s & std::ios_base::eofbit) ? 1 : 0) + ((s & std::ios_base::failbit) ? 2 : 0) + ((s & std::ios_base::badbit) ? 4 : 0); }
    static std::ios_base::iostate state(long b) { std::ios_base::iostate s = std::ios_base::goodbit; if (b & 1) s |= std::ios_base::eofbit; if (b & 2) s |= std::ios_base::failbit; if (b & 4) s |= std::ios_base::badbit; return s; }
    // an offset; `rec` is what is recorded (out of range in the same way, but small enough)
    long long offset(long& rec)
    {
        if (r.chance(85)) { rec = r.range(-long(cap) - 3, long(cap) + 3); return rec; }
        long long big[] = { std::numeric_limits<long long>::max(), std::numeric_limits<long long>::min(), std::numeric_limits<long long>::max() - 1, -(1LL << 32), 1LL << 32, (1LL << 32) + 1, 1LL << 62 };
        long long v = big[r.below(7)]; rec = v > 0 ? 1000000 : -1000000; return v;
    }
};

template<class C> struct In: Base<C> {
    using B = Base<C>; using B::r; using B::t; using B::cap;
    std::unique_ptr<core::BasicMemoryInputStream<C>> is = std::make_unique<core::BasicMemoryInputStream<C>>();
    using traits = std::char_traits<C>;
    void obs(vp::Ev ev) { auto v = is->view(); bool same = v.empty() || v.data() == this->data(); t.put(ev.i("st", B::bits(is->rdstate())).seq("v", B::nums(v.data(), v.size())).b("g", this->guards() && same)); }
    void begin(long n)
    {
        this->make(std::size_t(n)); for (long i = 0; i < n; ++i) this->data()[i] = this->ch();
        core::StringSpan<C> mem(this->data(), std::size_t(n));
        if (r.chance(40)) is = std::make_unique<core::BasicMemoryInputStream<C>>(mem);
        else { if (r.chance(20)) is = std::make_unique<core::BasicMemoryInputStream<C>>(); is->reset(mem); }
        vp::Ev ev("reset"); ev.s("k", "in").seq("m", B::nums(this->data(), cap)).i("n", n); obs(ev);
    }
    void read(long n) {
        std::vector<C> b(std::size_t(n) + 1, C(0x7E)); std::vector<C> got;
        int how = int(r.below(n == 1 ? 3 : 2));
        if (how == 0) { is->read(b.data(), n); got.assign(b.begin(), b.begin() + is->gcount()); }
        else if (how == 1) { long k = 0; bool stop = false;   // one character at a time until the first failure; zero reads must still construct a sentry
            if (n == 0) { is->read(b.data(), 0); }
            for (; k < n && !stop; ++k) { typename traits::int_type c = is->get(); if (traits::eq_int_type(c, traits::eof())) stop = true; else got.push_back(traits::to_char_type(c)); } }
        else { C c = C(0x7E); is->get(c); if (is->gcount() == 1) got.push_back(c); }
        vp::Ev ev("read"); ev.i("n", n).seq("r", B::nums(got.data(), got.size())); obs(ev);
    }
    void peek() { auto c = is->peek(); vp::Ev ev("peek"); ev.i("r", traits::eq_int_type(c, traits::eof()) ? -1 : B::num(traits::to_char_type(c))); obs(ev); }
    void unget() { is->unget(); vp::Ev ev("unget"); obs(ev); }
    void seek(long long off, long rec, const std::string& f)
    {
        if (f == "beg" && r.chance(60)) is->seekg(typename traits::pos_type(off)); else is->seekg(off, B::dir(f));
        vp::Ev ev("seek"); ev.i("off", rec).s("f", f); obs(ev);
    }
    void tell() { auto p = is->tellg(); vp::Ev ev("tell"); ev.i("r", (long long)(std::streamoff(p))); obs(ev); }
    void state(long b) { is->clear(B::state(b)); vp::Ev ev("state"); ev.i("set", b); obs(ev); }
    void step()
    {
        static const char* from[] = { "beg", "cur", "end" };
        switch (r.below(12)) {
        case 0: case 1: case 2: read(r.range(0, long(cap) / 2 + 2)); break;
        case 3: read(1); break;
        case 4: peek(); break;
        case 5: unget(); break;
        case 6: case 7: case 8: { long rec; long long o = this->offset(rec); seek(o, rec, from[r.below(3)]); break; }
        case 9: tell(); break;
        case 10: if (r.chance(60)) { if (is->rdstate() != std::ios_base::goodbit) state(0); else tell(); } else state(r.below(3)); break;
        case 11: if (is->rdstate() != std::ios_base::goodbit && r.chance(60)) state(0); else if (r.chance(15)) begin(r.range(0, 12)); else read(1); break;
        }
    }
};

template<class C> struct Out: Base<C> {
    using B = Base<C>; using B::r; using B::t; using B::cap;
    std::unique_ptr<core::BasicMemoryOutputStream<C>> os = std::make_unique<core::BasicMemoryOutputStream<C>>();
    using traits = std::char_traits<C>;
    void obs(vp::Ev ev)
    {
        auto v = os->view(); bool same = (v.empty() || v.data() == this->data()) && os->get_size() == v.size() && os->get_capacity() == cap && (cap == 0 || os->get_base() == this->data());
        t.put(ev.i("st", B::bits(os->rdstate())).seq("v", B::nums(v.data(), v.size())).seq("mem", B::nums(this->data(), cap)).b("g", this->guards() && same));
    }
    void begin(long n, long m)
    {
        this->make(std::size_t(n)); for (long i = 0; i < n; ++i) this->data()[i] = this->ch();
        core::Span<C> mem(this->data(), std::size_t(n));
        if (r.chance(40)) { if (m == 0 && r.chance(50)) os = std::make_unique<core::BasicMemoryOutputStream<C>>(mem); else os = std::make_unique<core::BasicMemoryOutputStream<C>>(mem, std::size_t(m)); }
        else { if (r.chance(20)) os = std::make_unique<core::BasicMemoryOutputStream<C>>(); if (m == 0 && r.chance(50)) os->reset(mem); else os->reset(mem, std::size_t(m)); }
        vp::Ev ev("reset"); ev.s("k", "out").seq("m", B::nums(this->data(), cap)).i("n", m); obs(ev);
    }
    void write(const std::vector<C>& s)
    {
        if (s.size() == 1 && r.chance(50)) os->put(s[0]); else os->write(s.data(), std::streamsize(s.size()));
        vp::Ev ev("write"); ev.seq("s", B::nums(s.data(), s.size())); obs(ev);
    }
    void seek(long long off, long rec, const std::string& f)
    {
        if (f == "beg" && r.chance(60)) os->seekp(typename traits::pos_type(off)); else os->seekp(off, B::dir(f));
        vp::Ev ev("seek"); ev.i("off", rec).s("f", f); obs(ev);
    }
    void tell() { auto p = os->tellp(); vp::Ev ev("tell"); ev.i("r", (long long)(std::streamoff(p))); obs(ev); }
    void state(long b) { os->clear(B::state(b)); vp::Ev ev("state"); ev.i("set", b); obs(ev); }
    void step()
    {
        static const char* from[] = { "beg", "cur", "end" };
        switch (r.below(10)) {
        case 0: case 1: case 2: write(this->str(r.range(0, long(cap) / 2 + 1))); break;
        case 3: write(this->str(1)); break;
        case 4: case 5: case 6: { long rec; long long o = this->offset(rec); seek(o, rec, from[r.below(3)]); break; }
        case 7: tell(); break;
        case 8: if (os->rdstate() != std::ios_base::goodbit) state(0); else if (r.chance(15)) state(r.below(4)); else tell(); break;
        case 9: if (os->rdstate() != std::ios_base::goodbit) state(0); else if (r.chance(15)) { long n = r.range(0, 12); begin(n, r.range(0, n)); } else write(this->str(1)); break;
        }
    }
};

template<class C> struct Seed: Base<C> {
    using B = Base<C>; using B::r; using B::t; using B::cap;
    std::unique_ptr<core::BasicSeedMemoryOutputStream<C>> os;
    void obs(vp::Ev ev)
    {
        auto v = os->view(); bool same = os->streambuf().size() == v.size() && os->streambuf().view() == v && (v.empty() || os->streambuf().data() == v.data());
        t.put(ev.i("st", B::bits(os->rdstate())).seq("v", B::nums(v.data(), v.size())).b("g", this->guards() && same));
    }
    void begin(long n)
    {
        os.reset(); this->make(std::size_t(n));
        if (n == 0 && r.chance(50)) os.reset(new core::BasicSeedMemoryOutputStream<C>());
        else os.reset(new core::BasicSeedMemoryOutputStream<C>(core::Span<C>(this->data(), std::size_t(n))));
        vp::Ev ev("reset"); ev.s("k", "seed").raw("m", "[]").i("n", 0); obs(ev);
    }
    void write(const std::vector<C>& s)
    {
        if (s.size() == 1 && r.chance(60)) os->put(s[0]); else os->write(s.data(), std::streamsize(s.size()));
        vp::Ev ev("write"); ev.seq("s", B::nums(s.data(), s.size())); obs(ev);
    }
    void append(std::vector<C> s)
    {
        if (r.chance(40)) { C c = this->ch(); for (C& x : s) x = c; os->streambuf().append(s.size(), c); }
        else os->streambuf().append(s.data(), s.size());
        vp::Ev ev("append"); ev.seq("s", B::nums(s.data(), s.size())); obs(ev);
    }
    void step()
    {
        switch (r.below(14)) {
        case 0: case 1: case 2: case 3: write(this->str(r.range(0, 6))); break;
        case 4: case 5: case 6: write(this->str(1)); break;
        case 7: case 8: append(this->str(r.range(0, 6))); break;
        case 9: { std::size_t n = std::size_t(r.range(0, 9)); os->streambuf().reserve_extra(n); vp::Ev ev("reserve"); obs(ev); break; }
        case 10: if (r.chance(50)) clear(); else full_clear(); break;
        case 11: case 12: if (os->rdstate() != std::ios_base::goodbit) state(0); else if (r.chance(20)) state(r.below(4)); else write(this->str(1)); break;
        case 13: { if (os->view().empty()) { write(this->str(1)); break; } // more than fits: length error, nothing changed
            bool threw = false; try { os->streambuf().reserve_extra(std::size_t(-1)); } catch (std::length_error&) { threw = true; }
            vp::Ev ev("reserve"); if (!threw && os->view().size() > 0) ev = vp::Ev("no-error"); obs(ev); break; }
        }
    }
    void clear() { os->streambuf().clear_contents(); vp::Ev ev("clear_contents"); obs(ev); }
    void full_clear() { os->full_clear(); vp::Ev ev("full_clear"); obs(ev); }
    void state(long b) { os->clear(B::state(b)); vp::Ev ev("state"); ev.i("set", b); obs(ev); }
};

template<class C> std::vector<C> conv(const vp::J& s) { std::vector<C> v; for (auto& x : s.a) v.push_back(C(x.n)); return v; }
template<class C> void script(vp::Trace& t, vp::Rng& r, const vp::J& s)
{
    const std::string& k = s["k"].s; long cap = s["cap"].n;
    In<C> in { { t, r } }; Out<C> out { { t, r } }; Seed<C> seed { { t, r } };
    if (k == "in") in.begin(cap); else if (k == "out") out.begin(cap, r.chance(50) ? 0 : cap); else seed.begin(r.range(0, 3));
    for (auto& o : s["ops"].a) {
        const std::string& n = o["o"].s; long b = n == "state" ? (o["n"].n == 0 ? 0 : o["f"].s == "eof" ? 1 : 2) : 0;
        if (k == "in") { if (n == "read") in.read(o["n"].n); else if (n == "peek") in.peek(); else if (n == "unget") in.unget(); else if (n == "seek") in.seek(o["n"].n, o["n"].n, o["f"].s); else if (n == "tell") in.tell(); else if (n == "state") in.state(b); }
        else if (k == "out") { if (n == "write") out.write(conv<C>(o["s"])); else if (n == "seek") out.seek(o["n"].n, o["n"].n, o["f"].s); else if (n == "tell") out.tell(); else if (n == "state") out.state(b); }
        else { if (n == "write") seed.write(conv<C>(o["s"])); else if (n == "append") seed.append(conv<C>(o["s"])); else if (n == "clear_contents") seed.clear(); else if (n == "full_clear") seed.full_clear(); else if (n == "state") seed.state(b); }
    }
}
template<class C> void episode(vp::Trace& t, vp::Rng& r, int k, long steps)
{
    if (k == 0) { In<C> x { { t, r } }; x.begin(r.range(0, 12)); for (long i = 0; i < steps; ++i) x.step(); }
    else if (k == 1) { Out<C> x { { t, r } }; long n = r.range(0, 12); x.begin(n, r.range(0, n)); for (long i = 0; i < steps; ++i) x.step(); }
    else { Seed<C> x { { t, r } }; x.begin(r.chance(30) ? 0 : r.range(0, 20)); for (long i = 0; i < steps; ++i) x.step(); }
}
int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Trace t(a.trace); vp::Rng r(a.seed);
    for (auto& s : a.scripts) { if (r.chance(50)) script<char>(t, r, s); else script<wchar_t>(t, r, s); }
    for (long i = 0; i < a.episodes; ++i) { int k = int(i % 3); if (i / 3 % 2) episode<wchar_t>(t, r, k, a.steps); else episode<char>(t, r, k, a.steps); }
}
