// Driver of property U02: closest point search in k-d trees. Coordinates are integers, so that
// all distances compared are exact.
#include "common.hpp"
#include <cmath>
#include <array>
#include <list>
#include <deque>
#include <utility>
#include <algorithm>
#include <limits>
#include <archon/core/math.hpp>
#include <archon/util/kdtree.hpp>
using namespace archon;
static vp::Rng* rng; static vp::Trace* t;
using Pt = std::vector<int>;
template<class T> struct Elem { std::array<T, 6> c; };
static std::string opt(bool has, long v) { return has ? "[" + std::to_string(v) + "]" : "[]"; }
template<class T> std::string sq_of(T d) { T s = d * d; long long r = std::llround(double(s)); return d >= 0 && std::fabs(double(s) - double(r)) <= 1e-4 * (1 + double(r)) && std::sqrt(T(r)) == d ? std::to_string(r) : "-1"; }
// Points held directly in a container
template<class T, class C> void direct(const std::vector<Pt>& in, int k, const std::vector<std::pair<Pt, int>>& qs, int k0)
{
    C cont; for (auto& p : in) { Elem<T> e {}; for (int i = 0; i < k; ++i) e.c[std::size_t(i)] = T(p[std::size_t(i)]); cont.push_back(e); }
    auto get = [](const Elem<T>& e, int i) { return e.c[std::size_t(i)]; };
    auto coords = [&](const Elem<T>& e) { Pt p; for (int i = 0; i < k; ++i) p.push_back(int(std::lround(double(e.c[std::size_t(i)])))); return p; };
    t->put(vp::Ev("reset").i("k", k).seq2("pts", in)); t->flush();
    util::kdtree_sort(k0, cont.begin(), cont.end(), get);
    std::vector<Pt> out; for (auto& e : cont) out.push_back(coords(e));
    t->put(vp::Ev("sort").seq2("pts", out));
    for (auto& [q, md] : qs) {
        T c[6] = {}; for (int i = 0; i < k; ++i) c[i] = T(q[std::size_t(i)]);
        std::optional<T> m; if (md >= 0) m = T(md);
        Elem<T> point {}; point.c[0] = -77777; T dist = -5; const C& cc = cont;
        t->flush(); bool ok = util::kdtree_find(k0, cc.begin(), cc.end(), get, c, m, point, dist);
        if (!ok && (point.c[0] != -77777 || dist != -5)) ok = true;     // must have been left unchanged
        t->put(vp::Ev("find").seq("q", q).raw("md", opt(md >= 0, md)).b("ok", ok).seq("p", ok ? coords(point) : Pt()).raw("sq", ok ? sq_of(dist) : "0"));
    }
}
// Sequence of indices of points
template<class T> void indirect(const std::vector<Pt>& in, int k, const std::vector<std::pair<Pt, int>>& qs, int k0)
{
    std::vector<unsigned short> idx; for (std::size_t i = 0; i < in.size(); ++i) idx.push_back((unsigned short)i);
    auto get = [&](unsigned short i, int d) { return in[i][std::size_t(d)]; };
    t->put(vp::Ev("reset").i("k", k).seq2("pts", in)); t->flush();
    util::kdtree_sort(k0, idx.data(), idx.data() + idx.size(), get);
    std::vector<Pt> out; for (auto i : idx) out.push_back(in[i]);
    t->put(vp::Ev("sort").seq2("pts", out));
    for (auto& [q, md] : qs) {
        T c[6] = {}; for (int i = 0; i < k; ++i) c[i] = T(q[std::size_t(i)]);
        std::optional<T> m; if (md >= 0) m = T(md);
        unsigned short point = 60000; T dist = -5;
        t->flush(); bool ok = util::kdtree_find(k0, idx.data(), idx.data() + idx.size(), get, c, m, point, dist);
        if (!ok && (point != 60000 || dist != -5)) ok = true;
        t->put(vp::Ev("find").seq("q", q).raw("md", opt(md >= 0, md)).b("ok", ok).seq("p", ok && point < in.size() ? in[std::size_t(point)] : Pt()).raw("sq", ok ? sq_of(dist) : "0"));
    }
}
static void go(const std::vector<Pt>& in, int k, const std::vector<std::pair<Pt, int>>& qs, int how)
{
    int k0 = in.empty() && how % 2 ? 0 : k;
    switch (how % 4) {
        case 0: direct<double, std::vector<Elem<double>>>(in, k, qs, k0); break;
        case 1: direct<float, std::deque<Elem<float>>>(in, k, qs, k0); break;
        case 2: indirect<double>(in, k, qs, k0); break;
        default: indirect<long double>(in, k, qs, k0);
    }
}
int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Trace tr(a.trace); vp::Rng r(a.seed); t = &tr; rng = &r; int n = 0;
    for (const vp::J& j : a.scripts) {
        int k = int(j[0].n), side = int(j[1].n); std::vector<Pt> in; for (auto& p : j[2].a) in.push_back(p.ints());
        for (std::size_t i = in.size(); i > 1; --i) std::swap(in[i - 1], in[std::size_t(r.below(long(i)))]);
        std::vector<std::pair<Pt, int>> qs; Pt q(std::size_t(k), -1); 
        for (;;) { qs.emplace_back(q, -1); qs.emplace_back(q, int(r.range(0, 2 * side + 1))); int i = 0; while (i < k && ++q[std::size_t(i)] > side + 1) q[std::size_t(i++)] = -1; if (i == k) break; }
        go(in, k, qs, n++);
    }
    for (long e = 0; e < a.episodes; ++e) {
        int k = int(r.range(1, 5)); int side = r.chance(50) ? int(r.range(1, 6)) : int(r.range(5, 600)); std::vector<Pt> in; long np = r.chance(70) ? r.range(0, 12) : r.range(10, 70);
        auto pt = [&] { Pt p; for (int i = 0; i < k; ++i) p.push_back(int(r.range(-side, side))); return p; };
        for (long i = 0; i < np; ++i) { in.push_back(pt()); if (in.size() > 1 && r.chance(20)) { Pt& p = in[std::size_t(r.below(long(in.size() - 1)))]; if (r.chance(40)) in.back() = p; else in.back()[std::size_t(r.below(k))] = p[0]; } }
        std::vector<std::pair<Pt, int>> qs;
        for (long s = 0; s < a.steps; ++s) { Pt q = pt(); if (!in.empty() && r.chance(40)) { q = r.pick(in); if (r.chance(70)) q[std::size_t(r.below(k))] += int(r.range(-2, 2)); } qs.emplace_back(q, r.chance(50) ? -1 : int(r.chance(50) ? r.range(0, 5) : r.range(0, 2 * side))); }
        go(in, k, qs, int(r.below(4)));
    }
}
