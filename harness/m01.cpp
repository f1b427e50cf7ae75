// Driver of property M01: vectors, matrices, quaternions and rotations with components that are whole numbers.
#include "common.hpp"
#include <array>
#include <cmath>
#include <numbers>
#include <sstream>
#include <locale>
#include <archon/math/vector.hpp>
#include <archon/math/matrix.hpp>
#include <archon/math/quaternion.hpp>
#include <archon/math/rotation.hpp>
using namespace archon;
static vp::Rng* rng; static vp::Trace* t;
// Whole number, or an impossible one if the argument is not close to any
static std::string n(long double x) { long double y = std::round(x); if (!(std::fabs(x - y) < 1e-5L * (1 + std::fabs(y) / 100)) || std::fabs(y) > 1e9L) return "999999937"; return std::to_string((long long)y); }
static std::string n(double x) { return n((long double)x); }
static std::string n(float x) { return n((long double)x); }
template<int N, class T> std::string n(const math::Vector<N, T>& v) { std::string s = "["; for (int i = 0; i < N; ++i) s += (i ? "," : "") + n(v[i]); return s + "]"; }
template<int M, int N, class T> std::string n(const math::Matrix<M, N, T>& v) { std::string s = "["; for (int i = 0; i < M; ++i) s += (i ? "," : "") + n(v[i]); return s + "]"; }
static std::string n(const math::Quaternion& q) { return n(math::Vector<4>(q.w, q.v[0], q.v[1], q.v[2])); }
template<class T> std::string cmp(const T& a, const T& b) { auto f = [](bool x) { return std::string(x ? "true" : "false"); }; return "[" + f(a == b) + "," + f(a != b) + "," + f(a < b) + "," + f(a <= b) + "," + f(a > b) + "," + f(a >= b) + "]"; }
static vp::Ev op(const char* o) { return std::move(vp::Ev("op").s("o", o)); }
template<class R> void put(const char* o, const std::string& a, const std::string& b, const R& r) { t->put(op(o).raw("a", a).raw("b", b).raw("r", n(r))); }
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1"; } };
template<class T> std::string text(const T& x) { std::ostringstream o; if (rng->chance(50)) o.imbue(std::locale(std::locale::classic(), new Comma)); o << x; std::string s; vp::json_str(s, o.str()); return s; }
static int num() { auto& r = *rng; return r.chance(25) ? 0 : r.chance(50) ? int(r.range(-2, 2)) : int(r.range(-9, 9)); }
template<int N, class T = double> math::Vector<N, T> vec() { math::Vector<N, T> v; int p = rng->chance(15) ? 100 : 0; int k = num(); for (int i = 0; i < N; ++i) v[i] = T(rng->chance(p) ? k : num()); return v; }
template<int M, int N, class T = double> math::Matrix<M, N, T> mat()
{
    auto& r = *rng; math::Matrix<M, N, T> m; for (int i = 0; i < M; ++i) m[i] = vec<N, T>();
    switch (r.below(12)) {
        case 0: for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) if (i < j) m[i][j] = 0; break;
        case 1: for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) if (i > j) m[i][j] = 0; break;
        case 2: { m = math::Matrix<M, N, T>(); for (int i = 0; i < std::min(M, N); ++i) m[i][i] = 1; int i = int(r.below(M)), j = int(r.below(M)); auto row = m[i]; m[i] = m[j]; m[j] = row; i = int(r.below(M)), j = int(r.below(M)); row = m[i]; m[i] = m[j]; m[j] = row; break; }
        case 3: m[r.below(M)] = {}; break;
        case 4: m[r.below(M)] = m[r.below(M)]; break;
        case 5: { int j = int(r.below(N)); for (int i = 0; i < M; ++i) m[i][j] = 0; break; }
        case 6: m[0][0] = 0; break;
        default: break;
    }
    return m;
}
template<int N, class T, class U> void vectors()
{
    using math::Vector; auto& r = *rng; auto a = vec<N, T>(); auto b = vec<N, U>(); int k = num(); auto A = n(a), B = n(b), K = std::to_string(k);
    switch (r.below(16)) {
        case 0: put("vadd", A, B, a + b); if constexpr (std::is_same_v<T, U>) { a += b; put("vadd", A, B, a); } break;
        case 1: put("vsub", A, B, a - b); if constexpr (std::is_same_v<T, U>) { a -= b; put("vsub", A, B, a); } break;
        case 2: put("vneg", A, "0", -a); break;
        case 3: put("vmul", A, K, a * U(k)); put("vmul", A, K, U(k) * a); put("vmul", A, K, math::outer(a, U(k))); put("vmul", A, K, math::outer(U(k), a)); a *= T(k); put("vmul", A, K, a); break;
        case 4: if (k != 0) { a = a * T(k); A = n(a); put("vdiv", A, K, a / U(k)); a /= T(k); put("vdiv", A, K, a); } break;
        case 5: put("dot", A, B, math::dot(a, b)); put("dot", A, B, math::inner(a, b)); break;
        case 6: put("sum", A, "0", math::sum(a)); put("sqsum", A, "0", math::sq_sum(a)); break;
        case 7: { auto l = math::len(a); put("len", A, "0", l * l); break; }
        case 8: if (math::sq_sum(b) != 0) { auto p = math::proj(a, b); put("proj", A, B, p * math::sq_sum(b)); } break;
        case 9: case 10: { Vector<N, T> c = a; int i = int(r.below(N)); if (r.chance(70)) c[i] = T(num()); put("sum", n(c), "0", math::sum(c)); t->put(op("vcmp").raw("a", A).raw("b", n(c)).raw("r", cmp(a, c))); break; }
        case 11: t->put(op("vtext").raw("a", A).raw("r", text(a))); break;
        case 12: { put("same", A, "0", Vector<N, float>(a)); put("same", A, "0", Vector<N, long double>(a)); std::array<T, N> arr; for (int i = 0; i < N; ++i) arr[i] = a[i]; put("same", A, "0", Vector<N, T>(arr)); for (int i = 0; i < N; ++i) arr[i] = a.components()[i]; put("same", A, "0", Vector(arr));
            Vector<N, T> c; c.components() = a.components(); put("same", A, "0", c);
            if constexpr (N == 2) put("same", A, "0", Vector<2, T>(a[0], a[1])); if constexpr (N == 3) put("same", A, "0", Vector<3, T>(a[0], a[1], a[2])); if constexpr (N == 4) put("same", A, "0", Vector<4, T>(a[0], a[1], a[2], a[3])); break; }
        default:
            if constexpr (N == 2) put("perp", A, "0", math::perp(a));
            if constexpr (N == 3) { put("cross", A, B, math::cross(a, b)); put("cross", A, B, a * b); if constexpr (std::is_same_v<T, U>) { auto c = a; c *= b; put("cross", A, B, c); c = a; c *= c; put("cross", A, A, c); } }
            { auto c = vec<4, U>(); put("outer", A, n(c), math::outer(a, c)); put("outer", n(c), A, math::outer(c, a)); break; }
    }
}
template<int M, int N, int P, class T, class U> void matrices()
{
    using math::Matrix; using math::Vector; auto& r = *rng; auto a = mat<M, N, T>(); auto A = n(a); int k = num(); auto K = std::to_string(k);
    switch (r.below(14)) {
        case 0: { auto b = mat<M, N, U>(); auto B = n(b); put("madd", A, B, a + b); put("msub", A, B, a - b); if constexpr (std::is_same_v<T, U>) { auto c = a; c += b; put("madd", A, B, c); a -= b; put("msub", A, B, a); } break; }
        case 1: put("mneg", A, "0", -a); put("transpose", A, "0", math::transpose(a)); break;
        case 2: put("mmul", A, K, a * U(k)); put("mmul", A, K, U(k) * a); put("mmul", A, K, math::outer(a, U(k))); put("mmul", A, K, math::outer(U(k), a)); a *= T(k); put("mmul", A, K, a); break;
        case 3: if (k != 0) { a = a * T(k); A = n(a); put("mdiv", A, K, a / U(k)); a /= T(k); put("mdiv", A, K, a); } break;
        case 4: { auto v = vec<N, U>(); put("matvec", A, n(v), a * v); put("matvec", A, n(v), math::inner(a, v)); auto w = vec<M, U>(); put("vecmat", n(w), A, w * a); put("vecmat", n(w), A, math::inner(w, a)); break; }
        case 5: case 6: { auto b = mat<N, P, U>(); auto B = n(b); put("matmat", A, B, a * b); put("matmat", A, B, math::inner(a, b)); break; }
        case 7: { auto c = a; if (r.chance(70)) c[r.below(M)][r.below(N)] = T(num()); t->put(op("mcmp").raw("a", A).raw("b", n(c)).raw("r", cmp(a, c))); break; }
        case 8: t->put(op("mtext").raw("a", A).raw("r", text(a))); break;
        case 9: { put("same", A, "0", Matrix<M, N, float>(a)); put("same", A, "0", Matrix<M, N, long double>(a)); std::array<Vector<N, T>, M> arr; for (int i = 0; i < M; ++i) arr[i] = a.rows()[i]; put("same", A, "0", Matrix<M, N, T>(arr));
            if constexpr (M == 2) put("same", A, "0", Matrix<M, N, T>(a[0], a[1])); if constexpr (M == 3) put("same", A, "0", Matrix<M, N, T>(a[0], a[1], a[2])); if constexpr (M == 4) put("same", A, "0", Matrix<M, N, T>(a[0], a[1], a[2], a[3])); break; }
        case 10: { int i = int(r.below(M)), j = int(r.below(N)); const auto& c = a; t->put(op("row").raw("a", A).i("i", i).raw("r", n(c[i]))); t->put(op("col").raw("a", A).i("i", j).raw("r", n(a.get_col(j)))); put("diag", A, "0", a.get_diag()); break; }
        case 11: { constexpr int p = std::min(M, P), q = std::min(N, P); int i = int(r.range(0, M - p)), j = int(r.range(0, N - q)); t->put(op("sub").raw("a", A).i("i", i).i("j", j).raw("r", n(a.template get_submatrix<p, q>(i, j)))); t->put(op("sub").raw("a", A).i("i", M - 1).i("j", j).raw("r", n(a.template get_submatrix<1, q>(M - 1, j)))); break; }
        case 12: { put("ident", "0", "0", Matrix<M, N, T>::identity()); put("default", "0", "0", Matrix<M, N, T>()); put("gen", "0", "0", Matrix<M, N, T>::generate([](int i, int j) { return 10 * i + j; }));
            int i = int(r.range(0, 2)), j = int(r.range(0, 1)); t->put(op("extend").raw("a", A).i("i", i).i("j", j).raw("r", n(math::extend<M + 2, N + 1, T>(a, i, j)))); break; }
        default: {
            auto b = a; auto p = math::decompose(b); constexpr int q = std::min(M, N); Matrix<M, q, T> L; Matrix<q, N, T> U_; bool part = true;
            for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) { if (i < q && i <= j) U_[i][j] = b[i][j]; if (j < q && i > j) { L[i][j] = b[i][j]; part = part && std::fabs(b[i][j]) <= 1 + 1e-5; } }
            for (int i = 0; i < q; ++i) L[i][i] = 1;
            Matrix<M, N, long double> lu; for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) for (int x = 0; x < q; ++x) lu[i][j] += (long double)(L[i][x]) * U_[x][j];
            t->put(vp::Ev("lu").raw("a", A).seq("p", p).raw("lu", n(lu)).b("part", part));
        }
    }
}
template<int N, class T> void squares()
{
    auto& r = *rng; auto a = mat<N, N, T>(); auto A = n(a);
    switch (r.below(6)) {
        case 0: put("tr", A, "0", math::tr(a)); break;
        case 1: put("det", A, "0", math::det(a)); break;
        case 2: case 3: {
            auto b = mat<2, N, T>(); auto B = n(b); auto i = math::inv(a); auto c = a; bool ok = math::try_inv(c); T d = std::round(math::det(a)); auto e = b; if (r.chance(50)) e /= a; else e = b / a; auto f = T(3) / a;
            bool z = true; for (int x = 0; x < N; ++x) for (int y = 0; y < N; ++y) z = z && i[x][y] == 0;
            if (!(std::fabs(d) < 1e6)) d = 0;
            if (!ok || d == 0) t->put(vp::Ev("inv").raw("a", A).raw("b", B).raw("d", n(d)).b("ok", ok).b("z", z).raw("r", "[]").raw("p", "[]").raw("q", "[]").raw("s", "[]"));
            else t->put(vp::Ev("inv").raw("a", A).raw("b", B).raw("d", n(d)).b("ok", ok).b("z", z).raw("r", n(i * d)).raw("p", n(c * d)).raw("q", n(e * d)).raw("s", n(f * d)));
            break;
        }
        default: {
            if (r.chance(80)) for (int i = 0; i < N; ++i) if (a[i][i] == 0) a[i][i] = T(r.chance(50) ? 1 : -2);
            A = n(a); bool low = r.chance(50), unit = r.chance(40), ok; T d = 1; if (!unit) for (int i = 0; i < N; ++i) d *= a[i][i];
            if (low) ok = unit ? math::try_lower_tri_inv<true>(a) : math::try_lower_tri_inv<false>(a); else ok = unit ? math::try_upper_tri_inv<true>(a) : math::try_upper_tri_inv<false>(a);
            t->put(vp::Ev("triinv").raw("a", A).b("low", low).b("unit", unit).b("ok", ok).raw("r", ok ? n(a * d) : "[]"));
        }
    }
}
template<int M, int N, class T> void history()
{
    using math::Matrix; auto& r = *rng; auto m = mat<M, N, T>(); auto mod = [&](const char* o, const std::string& a, int i = 0, int j = 0) { t->put(vp::Ev("mod").s("o", o).raw("a", a).i("i", i).i("j", j).raw("r", n(m))); };
    mod("new", n(m));
    for (int k = 0; k < 12; ++k) {
        T big = 0; for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) big = std::max(big, T(std::fabs(m[i][j]))); if (big > 5000) { m = mat<M, N, T>(); mod("new", n(m)); big = 9; }
        int i = int(r.below(M)), j = int(r.below(N)), i2 = int(r.below(M)), c = num();
        switch (r.below(16)) {
            case 0: m[i][j] = T(c); mod("elem", std::to_string(c), i, j); break;
            case 1: { auto v = vec<N, T>(); m[i] = v; mod("row", n(v), i); break; }
            case 2: { auto v = vec<M, T>(); auto& x = m.set_col(j, v); if (&x != &m) return; mod("col", n(v), j); break; }
            case 3: if constexpr (M == N) { m.set_col(j, m[i]); mod("rowcol", "0", j, i); } break;
            case 4: { auto v = vec<std::min(M, N), T>(); m.set_diag(v); mod("diag", n(v)); break; }
            case 5: { constexpr int p = (M + 1) / 2, q = (N + 1) / 2; auto x = mat<p, q, T>(); int k = int(r.range(0, M - p)), l = int(r.range(0, N - q)); m.set_submatrix(k, l, x); mod("sub", n(x), k, l); break; }
            case 6: { auto x = mat<M, N, T>(); m += x; mod("add", n(x)); break; }
            case 7: { auto x = mat<M, N, T>(); m -= x; mod("subtract", n(x)); break; }
            case 8: m *= T(c); mod("scale", std::to_string(c)); break;
            case 9: case 10: { auto x = mat<N, N, T>(); m *= x; mod("times", n(x)); break; }
            case 11: if constexpr (M == N) { if (big <= 60) { m *= m; mod("square", "0"); } } break;
            case 12: m += m; mod("double", "0"); break;
            case 13: m[i] += m[i2]; mod("rowadd", "0", i, i2); break;
            case 14: m[i] *= T(c); mod("rowscale", std::to_string(c), i); break;
            default: { auto x = mat<N, N, T>(); m[i] *= x; mod("rowtimes", n(x), i); }
        }
    }
}
static void quaternions()
{
    using math::Quaternion; using math::Rotation; auto& r = *rng; auto q = [&] { auto v = vec<4>(); return r.chance(50) ? Quaternion(v[0], v[1], v[2], v[3]) : Quaternion(v[0], { v[1], v[2], v[3] }); };
    auto a = q(), b = q(); auto A = n(a), B = n(b);
    double pi = std::numbers::pi; auto turn = [&](int ax, int k) { math::Vector<3> v; bool flip = r.chance(30); v[ax - 1] = flip ? -1 : 1; return Rotation(v, (flip ? -k : k) * pi / 2); };
    int x = int(r.range(1, 3)), y = int(r.range(1, 3)), i = int(r.range(-4, 4)), j = int(r.range(-4, 4)); auto p = [](int ax, int k) { return "[" + std::to_string(ax) + "," + std::to_string(k) + "]"; };
    auto rot = [](const Rotation& w) { return w.to_versor().to_rotation_matrix(); };
    switch (r.below(14)) {
        case 0: put("vadd", A, B, a + b); put("vsub", A, B, a - b); { auto c = a; c += b; put("vadd", A, B, c); a -= b; put("vsub", A, B, a); } break;
        case 1: put("vneg", A, "0", -a); put("qconj", A, "0", math::conj(a)); break;
        case 2: put("qmul", A, B, a * b); { auto c = a; c *= b; put("qmul", A, B, c); c = a; c *= c; put("qmul", A, A, c); } break;
        case 3: if (double s = math::sq_sum(b); s != 0) { put("qdiv", A, B, a / b * s); auto c = a; c /= b; put("qdiv", A, B, c * s); put("qdiv", "[1,0,0,0]", B, math::inv(b) * s); } break;
        case 4: put("qsand", A, B, math::conj(a, b)); { Quaternion c(0, a.v); put("qsand", n(c), B, Quaternion(0, math::conj(a.v, b))); } break;
        case 5: put("sqsum", A, "0", math::sq_sum(a)); { double l = math::len(a); put("len", A, "0", l * l); if (l != 0) { auto c = math::normalize(a); put("same", "1", "0", math::sq_sum(c)); put("same", A, "0", c * l); put("qmat", A, "0", c.to_rotation_matrix() * (l * l)); } } break;
        case 6: { auto c = a; if (r.chance(70)) { if (r.chance(40)) c.w = num(); else c.v[int(r.below(3))] = num(); } t->put(op("vcmp").raw("a", A).raw("b", n(c)).raw("r", cmp(a, c))); break; }
        case 7: t->put(op("qtext").raw("a", A).raw("r", text(a))); break;
        case 8: if (double s = math::sq_sum(a); s != 0) { put("qmat", A, "0", a.to_rotation_matrix() * s); auto ro = Rotation::from_versor(a); put("qmat", A, "0", rot(ro) * s); put("same", "1", "0", math::sq_sum(ro.axis)); } break;
        case 9: put("turn", p(x, i), "0", rot(turn(x, i))); { auto w = turn(x, 1); put("turn", p(x, j), "0", rot(w * j)); put("turn", p(x, j), "0", rot(j * w)); w *= j; put("turn", p(x, j), "0", rot(w)); w = -w; put("turn", p(x, -j), "0", rot(w)); } break;
        case 10: { auto w = turn(x, 2 * i); put("turn", p(x, i), "0", rot(w / 2)); w /= 2; put("turn", p(x, i), "0", rot(w)); break; }
        case 11: { auto w = turn(x, i), u = turn(y, j); put("turns", p(x, i), p(y, j), rot(w + u)); put("unturn", p(x, i), p(y, j), rot(w - u)); auto w2 = w; w2 += u; put("turns", p(x, i), p(y, j), rot(w2)); w -= u; put("unturn", p(x, i), p(y, j), rot(w)); break; }
        case 12: { int k = int(r.range(-4, 4)); put("euler", "[" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k) + "]", "0", Quaternion::from_proper_euler_angles(i * pi / 2, j * pi / 2, k * pi / 2).to_rotation_matrix()); break; }
        default: { int k = int(r.range(0, 2)); math::Vector<3> v; v[x - 1] = 1; put("turn", p(x, k), "0", Quaternion::from_axis_cos_angle(v, 1 - k).to_rotation_matrix()); Rotation w(v, i), u = w; if (r.chance(70)) { if (r.chance(50)) u.angle = j; else { u.axis = {}; u.axis[y - 1] = 1; } }
            auto f = [](const Rotation& w) { return n(math::Vector<4>(w.axis[0], w.axis[1], w.axis[2], w.angle)); }; t->put(op("vcmp").raw("a", f(w)).raw("b", f(u)).raw("r", cmp(w, u))); }
    }
}
template<int M, int N> void shape()
{
    switch (rng->below(4)) {
        case 0: matrices<M, N, 1, double, double>(); matrices<M, N, 3, double, double>(); break;
        case 1: matrices<M, N, 2, double, double>(); break;
        case 2: matrices<M, N, 4, double, double>(); break;
        default: history<M, N, double>();
    }
}
template<int M> void shapes() { switch (rng->below(5)) { case 0: shape<M, 1>(); break; case 1: shape<M, 2>(); break; case 2: shape<M, 3>(); break; case 3: shape<M, 4>(); break; default: squares<M, double>(); } }
int main(int argc, char** argv)
{
    vp::Args a(argc, argv); vp::Trace tr(a.trace); vp::Rng r(a.seed); t = &tr; rng = &r;
    for (long e = 0; e < a.episodes; ++e) {
        tr.put(vp::Ev("reset"));
        for (long k = 0; k < a.steps; ++k) {
            switch (r.below(12)) {
                case 0: vectors<1, double, double>(); vectors<2, double, double>(); break;
                case 1: vectors<2, double, float>(); vectors<3, long double, float>(); break;
                case 2: vectors<3, double, double>(); vectors<4, float, double>(); break;
                case 3: vectors<3, float, float>(); vectors<4, double, double>(); vectors<5, double, double>(); break;
                case 4: matrices<2, 3, 2, float, double>(); matrices<3, 3, 2, long double, float>(); matrices<5, 2, 3, double, double>(); break;
                case 5: squares<3, long double>(); squares<2, long double>(); squares<4, double>(); squares<3, double>(); break;
                case 6: quaternions(); quaternions(); break;
                case 7: if (r.chance(30)) squares<5, double>(); history<3, 2, float>(); break;
                case 8: shapes<1>(); break;
                case 9: shapes<2>(); break;
                case 10: shapes<3>(); break;
                default: shapes<4>();
            }
        }
    }
}
