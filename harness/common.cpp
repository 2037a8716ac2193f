#include "common.hpp"
#include <chrono>
#include <csignal>
#include <cstdio>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
bool g_verbose = false;
string g_tmpdir = ".";

vector<Der> oCurve(const Curve& c, double x, int order)
{
    const auto& U = c.Knots.Values();
    int p = c.Degree, s = oSpan(U, p, x);
    vector<std::array<ld, 4>> A(order + 1, {0, 0, 0, 0});
    vector<ld> MA(order + 1, 0), MW(order + 1, 0);
    for (int k = 0; k <= order; ++k)
        for (int i = s - p; i <= s; ++i)
        {
            ld N = oN(U, s, i, p, k, x), M = oN(U, s, i, p, k, x, true);
            const Vec4& P = c.ControlPoints.at(i);
            ld w = P.w();
            for (int d = 0; d < 3; ++d) A[k][d] += N * w * P[d];
            A[k][3] += N * w;
            MA[k] += fabsl(M) * w * (fabsl(P[0]) + fabsl(P[1]) + fabsl(P[2]));
            MW[k] += fabsl(M) * w;
        }
    vector<Der> out(order + 1);
    ld W = A[0][3];
    for (int k = 0; k <= order; ++k)
    {
        ld v[3] = {A[k][0], A[k][1], A[k][2]}, m = MA[k];
        for (int i = 1; i <= k; ++i)
        {
            for (int d = 0; d < 3; ++d) v[d] -= oBin(k, i) * A[i][3] * out[k - i].v[d];
            m += oBin(k, i) * MW[i] * out[k - i].mag;
        }
        out[k] = {{v[0] / W, v[1] / W, v[2] / W}, m / W};
    }
    return out;
}
L3 oPoint(const Curve& c, double x) { return oCurve(c, x, 0)[0].v; }

vector<vector<Der>> oSurface(const Surface& S, double u, double v, int ou, int ov)
{
    const auto& U = S.KnotsU.Values(); const auto& V = S.KnotsV.Values();
    int p = S.DegreeU, q = S.DegreeV, su = oSpan(U, p, u), sv = oSpan(V, q, v);
    int nu = (int)U.size() - p - 1;
    auto T4 = [&] { return vector<vector<std::array<ld, 4>>>(ou + 1, vector<std::array<ld, 4>>(ov + 1, {0, 0, 0, 0})); };
    auto A = T4();
    vector<vector<ld>> MA(ou + 1, vector<ld>(ov + 1, 0)), MW = MA;
    for (int k = 0; k <= ou; ++k)
        for (int l = 0; l <= ov; ++l)
            for (int i = su - p; i <= su; ++i)
            {
                ld Nu = oN(U, su, i, p, k, u), Mu = oN(U, su, i, p, k, u, true);
                for (int j = sv - q; j <= sv; ++j)
                {
                    ld N = Nu * oN(V, sv, j, q, l, v), M = fabsl(Mu * oN(V, sv, j, q, l, v, true));
                    const Vec4& P = S.ControlPoints.Values.at((size_t)j * nu + i);
                    ld w = P.w();
                    for (int d = 0; d < 3; ++d) A[k][l][d] += N * w * P[d];
                    A[k][l][3] += N * w;
                    MA[k][l] += M * w * (fabsl(P[0]) + fabsl(P[1]) + fabsl(P[2]));
                    MW[k][l] += M * w;
                }
            }
    vector<vector<Der>> out(ou + 1, vector<Der>(ov + 1));
    ld W = A[0][0][3];
    for (int k = 0; k <= ou; ++k)
        for (int l = 0; l <= ov; ++l)
        {
            ld r[3] = {A[k][l][0], A[k][l][1], A[k][l][2]}, m = MA[k][l];
            for (int i = 0; i <= k; ++i)
                for (int j = 0; j <= l; ++j)
                {
                    if (!i && !j) continue;
                    ld b = oBin(k, i) * oBin(l, j);
                    for (int d = 0; d < 3; ++d) r[d] -= b * A[i][j][3] * out[k - i][l - j].v[d];
                    m += b * MW[i][j] * out[k - i][l - j].mag;
                }
            out[k][l] = {{r[0] / W, r[1] / W, r[2] / W}, m / W};
        }
    return out;
}
L3 oPoint(const Surface& c, double u, double v) { return oSurface(c, u, v, 0, 0)[0][0].v; }

Knots genKnots(Rng& r, int p, int maxSpans, int tiny, bool coarse)
{
    Knots K;
    int spans = r.in(1, maxSpans);
    if (r.chance(8)) spans = 1;
    std::set<double> inner;
    int style = coarse ? r.in(0, 1) : r.in(0, tiny ? 3 : 2);
    int guard = 0;
    while ((int)inner.size() < spans - 1 && guard++ < 200)
    {
        double v;
        if (style == 0) v = r.in(1, coarse ? 15 : 63) / (coarse ? 16.0 : 64.0);
        else if (style == 1) v = (double)(inner.size() + 1) / spans;
        else if (style == 2) v = r.uni(0.01, 0.99);
        else
        {
            static const double g1[] = {1e-3, 1e-5, 3e-7, 1e-7, 2e-6}, g2[] = {1e-4, 1e-7, 1e-8, 1e-10, 1e-12, 2e-9, 3e-10, 5e-6}, g3[] = {1e-3, 6e-4, 1e-4, 2e-5, 3e-3};
            int gn = tiny == 2 ? 7 : 4; const double* g = tiny == 2 ? g2 : tiny == 3 ? g3 : g1;
            if (inner.empty()) { int w = r.in(0, 4); v = w == 0 ? g[r.in(0, gn)] : w == 1 ? 1 - g[r.in(0, gn)] : r.uni(0.05, 0.95); }
            else
            {
                auto it = inner.begin(); std::advance(it, r.in(0, (int)inner.size() - 1));
                v = r.chance(70) ? *it + g[r.in(0, gn)] * (r.chance(50) ? 1.0 : r.uni(0.9, 1.1)) : r.uni(0.05, 0.95);
            }
        }
        if (v <= 0 || v >= 1) continue;
        double lim = style == 3 ? (tiny == 2 ? 0.8e-12 : tiny == 3 ? 1.5e-5 : 0.9e-7) : style == 2 ? 8e-3 : 1e-9;
        bool ok = v > lim && v < 1 - lim;
        for (double o : inner) if (std::abs(o - v) < lim) ok = false;
        if (ok) inner.insert(v);
    }
    for (int i = 0; i <= p; ++i) K.U.push_back(0.0);
    double last = 0; K.gap = 1; K.spans = 1;
    for (double v : inner)
    {
        int m = 1;
        if (p > 1 && r.chance(35)) m = r.in(1, p);
        for (int i = 0; i < m && p > 0; ++i) K.U.push_back(v);
        if (p == 0) K.U.push_back(v);
        K.gap = std::min(K.gap, v - last); last = v; ++K.spans;
    }
    K.gap = std::min(K.gap, 1 - last);
    for (int i = 0; i <= p; ++i) K.U.push_back(1.0);
    return K;
}

static vector<Vec4> genPoints(Rng& r, int n, bool wild)
{
    vector<Vec4> out(n);
    int wstyle = r.in(0, wild ? 8 : 5), pstyle = r.in(0, wild ? 6 : 5);
    double sc = pstyle == 0 ? 1e3 : pstyle == 1 ? 1e-3 : pstyle == 2 ? 100 : 1;
    Vec3 last(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
    for (int i = 0; i < n; ++i)
    {
        Vec3 P;
        if (pstyle == 3) P = Vec3(r.in(-8, 8), r.in(-8, 8), r.in(-8, 8));
        else if (pstyle == 4) { if (!r.chance(25)) last = Vec3(r.uni(-5, 5), r.uni(-5, 5), r.uni(-5, 5)); P = last; }
        else P = Vec3(r.uni(-sc, sc), r.uni(-sc, sc), r.uni(-sc, sc));
        double w = 1;
        if (wstyle == 1) w = r.uni(0.25, 4);
        else if (wstyle == 2) w = std::exp(r.uni(-5, 5));
        else if (wstyle == 3) w = r.chance(80) ? 1.0 : r.uni(0.5, 2);
        else if (wstyle == 4) w = r.in(1, 8) * 0.25;
        else if (wstyle == 5) w = 0.5;
        else if (wstyle == 6) w = std::exp(r.uni(-25, 25));
        else if (wstyle == 7) w = 1 + r.uni(-1, 1) * 2e-6;
        else if (wstyle == 8) w = r.chance(70) ? 1.0 : r.chance(50) ? 1e12 : 1e-12;
        if (pstyle == 6) P += Vec3(1000, -3000, 2000);
        out[i] = Vec4(P.x(), P.y(), P.z(), w);
    }
    return out;
}
Curve genCurve(Rng& r, int pmin, int pmax, int maxSpans, int tiny, double* gap, bool coarse)
{
    Curve c; c.Degree = r.in(pmin, pmax);
    Knots K = genKnots(r, c.Degree, maxSpans, tiny, coarse);
    c.Knots.Values() = K.U; if (gap) *gap = K.gap;
    c.ControlPoints = genPoints(r, (int)K.U.size() - c.Degree - 1, tiny == 1 || tiny == 2);
    return c;
}
Surface genSurface(Rng& r, int pmin, int pmax, int maxSpans, int tiny, double* gap, bool coarse)
{
    Surface s; s.DegreeU = r.in(pmin, pmax); s.DegreeV = r.in(pmin, pmax);
    Knots K = genKnots(r, s.DegreeU, maxSpans, tiny, coarse), L = genKnots(r, s.DegreeV, maxSpans, tiny, coarse);
    s.KnotsU.Values() = K.U; s.KnotsV.Values() = L.U; if (gap) *gap = std::min(K.gap, L.gap);
    s.ControlPoints.UCount = (int)K.U.size() - s.DegreeU - 1;
    s.ControlPoints.VCount = (int)L.U.size() - s.DegreeV - 1;
    s.ControlPoints.Values = genPoints(r, s.ControlPoints.UCount * s.ControlPoints.VCount, tiny == 1 || tiny == 2);
    return s;
}
double genParam(Rng& r, const vector<double>& U)
{
    double x;
    switch (r.in(0, 7))
    {
    case 0: x = 0; break;
    case 1: x = 1; break;
    case 2: x = U[r.in(0, (int)U.size() - 1)]; break;
    case 3: x = std::nextafter(U[r.in(0, (int)U.size() - 1)], r.chance(50) ? 2.0 : -2.0); break;
    case 4: { int i = r.in(0, (int)U.size() - 2); x = (U[i] + U[i + 1]) / 2; break; }
    case 5: x = U[r.in(0, (int)U.size() - 1)] + r.uni(-1, 1) * std::pow(10.0, -r.in(1, 12)); break;
    default: x = r.uni();
    }
    return std::min(1.0, std::max(0.0, x));
}
vector<double> params(Rng& r, const vector<double>& U, int extra)
{
    vector<double> out{0.0, 1.0};
    for (double t : U) if (out.size() < 14) out.push_back(t);
    for (int i = 0; i < extra; ++i) out.push_back(genParam(r, U));
    return out;
}
double scaleOf(const vector<Vec4>& pts) { double m = 0; for (auto& p : pts) m = std::max(m, p.head<3>().cwiseAbs().maxCoeff()); return m; }
void describe(const char* name, const Curve& c)
{
    if (!g_verbose) return;
    g_desc.precision(17);
    g_desc << name << ": Degree=" << c.Degree << " Knots=" << c.Knots.Values() << " ControlPoints(x y z w)=";
    for (auto& p : c.ControlPoints) g_desc << "(" << p[0] << " " << p[1] << " " << p[2] << " " << p[3] << ")";
    g_desc << std::endl;
}
void describe(const char* name, const Surface& c)
{
    if (!g_verbose) return;
    g_desc.precision(17);
    g_desc << name << ": DegreeU=" << c.DegreeU << " DegreeV=" << c.DegreeV << " KnotsU=" << c.KnotsU.Values() << " KnotsV=" << c.KnotsV.Values()
           << " UCount=" << c.ControlPoints.UCount << " VCount=" << c.ControlPoints.VCount << " Values(x y z w)=";
    for (auto& p : c.ControlPoints.Values) g_desc << "(" << p[0] << " " << p[1] << " " << p[2] << " " << p[3] << ")";
    g_desc << std::endl;
}
static bool sameD(const vector<double>& a, const vector<double>& b)
{ return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
static bool sameP(const vector<Vec4>& a, const vector<Vec4>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (std::memcmp(a[i].data(), b[i].data(), 4 * sizeof(double))) return false;
    return true;
}
bool same(const Curve& a, const Curve& b)
{ return a.Degree == b.Degree && sameD(a.Knots.Values(), b.Knots.Values()) && sameP(a.ControlPoints, b.ControlPoints); }
bool same(const Surface& a, const Surface& b)
{
    return a.DegreeU == b.DegreeU && a.DegreeV == b.DegreeV && sameD(a.KnotsU.Values(), b.KnotsU.Values()) && sameD(a.KnotsV.Values(), b.KnotsV.Values())
           && a.ControlPoints.UCount == b.ControlPoints.UCount && a.ControlPoints.VCount == b.ControlPoints.VCount && sameP(a.ControlPoints.Values, b.ControlPoints.Values);
}
static void checkKnots(const vector<double>& U, int p, size_t n, const char* what)
{
    CHECK(p >= 1, what << ": degree " << p);
    CHECK(U.size() == n + p + 1, what << ": " << U.size() << " knots for " << n << " control points of degree " << p);
    for (size_t i = 0; i + 1 < U.size(); ++i) CHECK(U[i] <= U[i + 1], what << ": knots decrease at " << i << " " << U);
    for (int i = 0; i <= p; ++i) CHECK(U[i] == 0 && U[U.size() - 1 - i] == 1, what << ": knot vector not clamped " << U);
    for (size_t i = 1; i + p + 1 < U.size(); ++i) CHECK(U[i] < U[i + p] || U[i + p] == 1 || U[i] == 0, what << ": multiplicity above degree " << U);
}
void checkValid(const Curve& c, const char* what, bool weights)
{
    checkKnots(c.Knots.Values(), c.Degree, c.ControlPoints.size(), what);
    for (auto& p : c.ControlPoints) CHECK((p[3] > 0 || !weights) && std::isfinite(p[3]) && finite3(p.head<3>()), what << ": control point not finite or weight not positive");
}
void checkValid(const Surface& s, const char* what, bool weights)
{
    CHECK(s.ControlPoints.UCount > 0 && s.ControlPoints.VCount > 0 && (size_t)s.ControlPoints.UCount * s.ControlPoints.VCount == s.ControlPoints.Values.size(), what << ": grid inconsistent");
    checkKnots(s.KnotsU.Values(), s.DegreeU, s.ControlPoints.UCount, what);
    checkKnots(s.KnotsV.Values(), s.DegreeV, s.ControlPoints.VCount, what);
    for (auto& p : s.ControlPoints.Values) CHECK((p[3] > 0 || !weights) && std::isfinite(p[3]) && finite3(p.head<3>()), what << ": control point not finite or weight not positive");
}
void sameShape(Rng& r, const Curve& a, const Curve& b, ld tol, const char* what)
{
    for (double x : params(r, a.Knots.Values(), 6))
    {
        ld d = dist(oPoint(a, x), oPoint(b, x));
        CHECK(d <= tol, what << ": point at " << x << " moved by " << (double)d << " (allowed " << (double)tol << ")");
    }
}
void sameShape(Rng& r, const Surface& a, const Surface& b, ld tol, const char* what)
{
    for (int i = 0; i < 14; ++i)
    {
        double u = genParam(r, a.KnotsU.Values()), v = genParam(r, a.KnotsV.Values());
        ld d = dist(oPoint(a, u, v), oPoint(b, u, v));
        CHECK(d <= tol, what << ": point at " << u << "," << v << " moved by " << (double)d << " (allowed " << (double)tol << ")");
    }
}
vector<std::pair<double, int>> runs(const vector<double>& U)
{
    vector<std::pair<double, int>> o;
    for (double t : U) if (!o.empty() && o.back().first == t) ++o.back().second; else o.push_back({t, 1});
    return o;
}

static std::map<string, CaseFn>& table() { static std::map<string, CaseFn> t; return t; }
void registerCase(const char* id, CaseFn f) { table()[id] = f; }

static volatile uint64_t* g_status = nullptr;
static void onAlarm(int) { const char m[] = "CASE TIMEOUT\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }

int main(int argc, char** argv)
{
    // harness ID seed seconds statusfile tmpdir [index]
    if (argc < 6) return 2;
    string id = argv[1]; uint64_t seed = strtoull(argv[2], nullptr, 10); double secs = atof(argv[3]);
    g_tmpdir = argv[5];
    int64_t only = argc > 6 ? strtoll(argv[6], nullptr, 10) : -1;
    uint64_t start = argc > 7 ? strtoull(argv[7], nullptr, 10) : 0, stride = argc > 8 ? strtoull(argv[8], nullptr, 10) : 1;
    auto it = table().find(id);
    if (it == table().end()) { fprintf(stderr, "no case for %s\n", id.c_str()); return 2; }
    int fd = open(argv[4], O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, 64)) return 2;
    g_status = (volatile uint64_t*)mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    signal(SIGALRM, onAlarm);
    g_desc.precision(17);
    std::unordered_set<uint64_t> distinct;
    uint64_t n = 0, nontriv = 0;
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    for (uint64_t idx = only >= 0 ? (uint64_t)only : start;; idx += stride)
    {
        if (only < 0 && n > 0 && elapsed() > secs) break;
        g_status[0] = idx;
        g_verbose = only >= 0;
        uint64_t hid = 0; for (char ch : id) hid = hid * 131 + ch;
        Rng r(seed * 0x9E3779B97F4A7C15ull + idx * 0xD1342543DE82EF95ull + hid);
        r.next(); r.h = 1469598103934665603ull;
        alarm(25);
        string msg; bool bad = false, nt = false;
        try { nt = it->second(r); }
        catch (const Failure& f) { bad = true; msg = f.msg; }
        catch (const std::exception& e) { bad = true; msg = string("unexpected exception: ") + e.what(); }
        catch (...) { bad = true; msg = "unexpected exception of unknown type"; }
        alarm(0);
        ++n; if (nt && distinct.insert(r.h).second) ++nontriv;
        if (bad || only >= 0)
        {
            if (bad) std::cout << "FAIL index=" << idx << " " << msg << std::endl;
            else std::cout << "PASS index=" << idx << std::endl;
            fflush(stdout);
            return bad ? 1 : 0;
        }
    }
    printf("DONE evaluations=%llu nontrivial=%llu\n", (unsigned long long)n, (unsigned long long)nontriv);
    return 0;
}
