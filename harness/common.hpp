// Concrete-input searcher used to replay failed obligations and as the bounded stand-in.
// Every case is a pure function of (property, seed, index). Oracles are written from the
// mathematical definitions in long double and share no code with libnurbs.
#pragma once
#include <iostream>
#include <libnurbs/Core/KnotVector.hpp>
#include <libnurbs/Core/Grid.hpp>
#include <libnurbs/Core/BoundingBox.hpp>
#include <libnurbs/Curve/Curve.hpp>
#include <libnurbs/Surface/Surface.hpp>
#include <libnurbs/Basis/BSplineBasis.hpp>
#include <libnurbs/Algorithm/MathUtils.hpp>
#include <libnurbs/Algorithm/DegreeAlgo.hpp>
#include <libnurbs/Algorithm/KnotRemoval.hpp>
#include <libnurbs/Geometry/GeomRect.hpp>
#include <libnurbs/Geometry/GeomSegment.hpp>
#include <libnurbs/Utils/Serialization.hpp>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace libnurbs;
using ld = long double;
using std::vector;
using std::string;

struct Failure { string msg; };
extern bool g_verbose;
#define g_desc std::cout
extern string g_tmpdir;
#define DESC(...) do { if (g_verbose) { g_desc << __VA_ARGS__ << std::endl; } } while (0)
#define FAIL(...) do { std::ostringstream o_; o_.precision(17); o_ << __VA_ARGS__; throw Failure{o_.str()}; } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)

struct Rng
{
    uint64_t s; uint64_t h = 1469598103934665603ull;
    explicit Rng(uint64_t x) : s(x) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        z ^= z >> 31;
        h = (h ^ z) * 1099511628211ull;
        return z;
    }
    int in(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
    double uni() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    bool chance(int pct) { return in(0, 99) < pct; }
};

inline std::ostream& operator<<(std::ostream& o, const vector<double>& v)
{
    o << "{"; for (size_t i = 0; i < v.size(); ++i) { if (i) o << ", "; o << v[i]; } return o << "}";
}

// ---- long double geometry ------------------------------------------------------------------
struct L3 { ld x = 0, y = 0, z = 0; ld operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; } };
inline L3 toL(const Vec3& v) { return {v.x(), v.y(), v.z()}; }
inline ld dist(const L3& a, const L3& b) { return std::max({fabsl(a.x - b.x), fabsl(a.y - b.y), fabsl(a.z - b.z)}); }
inline bool finite3(const Vec3& v) { return std::isfinite(v.x()) && std::isfinite(v.y()) && std::isfinite(v.z()); }

// span of x: the last span of positive length that starts at or before x, among p..n
inline int oSpan(const vector<double>& U, int p, double x)
{
    int n = (int)U.size() - p - 2, s = p;
    for (int i = p; i <= n; ++i) if (U[i] <= x && U[i] < U[i + 1]) s = i;
    return s;
}
// k-th derivative of N_{i,p} at x with the recursion anchored at span s
inline ld oN(const vector<double>& U, int s, int i, int p, int k, ld x, bool absolute = false)
{
    if (i < 0 || i + p + 1 >= (int)U.size()) return 0;
    if (i > s || i + p < s) return 0;
    if (p == 0) return (k == 0 && i == s) ? 1 : 0;
    ld d1 = (ld)U[i + p] - U[i], d2 = (ld)U[i + p + 1] - U[i + 1], r = 0;
    if (k == 0)
    {
        if (d1 > 0) r += (x - U[i]) / d1 * oN(U, s, i, p - 1, 0, x, absolute);
        if (d2 > 0) r += (U[i + p + 1] - x) / d2 * oN(U, s, i + 1, p - 1, 0, x, absolute);
        return r;
    }
    if (d1 > 0) r += p / d1 * oN(U, s, i, p - 1, k - 1, x, absolute);
    if (d2 > 0) r += (absolute ? 1 : -1) * p / d2 * oN(U, s, i + 1, p - 1, k - 1, x, absolute);
    return r;
}
inline ld oBin(int n, int k) { if (k < 0 || k > n) return 0; ld r = 1; for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }

struct Der { L3 v; ld mag; };   // value and error scale
vector<Der> oCurve(const Curve& c, double x, int order);
L3 oPoint(const Curve& c, double x);
L3 oPoint(const Surface& c, double u, double v);
vector<vector<Der>> oSurface(const Surface& s, double u, double v, int ou, int ov);

// ---- generators ----------------------------------------------------------------------------
struct Knots { vector<double> U; double gap; int spans; };
// tiny: 0 knots well apart; 1 also knots 1e-7 to 1e-3 apart and extreme weights; 2 also knots down to 1e-12 apart; 3 knots 2e-5 to 1e-3 apart
Knots genKnots(Rng& r, int p, int maxSpans, int tiny, bool coarse = false);
Curve genCurve(Rng& r, int pmin, int pmax, int maxSpans, int tiny, double* gap = nullptr, bool coarse = false);
Surface genSurface(Rng& r, int pmin, int pmax, int maxSpans, int tiny, double* gap = nullptr, bool coarse = false);
double genParam(Rng& r, const vector<double>& U);
vector<double> params(Rng& r, const vector<double>& U, int extra);
double scaleOf(const vector<Vec4>& pts);
void describe(const char* name, const Curve& c);
void describe(const char* name, const Surface& s);
bool same(const Curve& a, const Curve& b);
bool same(const Surface& a, const Surface& b);
void checkValid(const Curve& c, const char* what, bool weights = true);
void checkValid(const Surface& c, const char* what, bool weights = true);
void sameShape(Rng& r, const Curve& a, const Curve& b, ld tol, const char* what);
void sameShape(Rng& r, const Surface& a, const Surface& b, ld tol, const char* what);
vector<std::pair<double, int>> runs(const vector<double>& U);

using CaseFn = bool (*)(Rng&);
void registerCase(const char* id, CaseFn f);
struct Reg { Reg(const char* id, CaseFn f) { registerCase(id, f); } };
#define CASE(ID) static bool case_##ID(Rng& r); static Reg reg_##ID(#ID, case_##ID); static bool case_##ID(Rng& r)
