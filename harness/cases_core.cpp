#include "common.hpp"

static vector<double> anySequence(Rng& r)
{
    vector<double> v;
    int n = r.in(0, 9);
    int style = r.in(0, 5);
    for (int i = 0; i < n; ++i) v.push_back(style < 3 ? r.in(0, 8) / 8.0 : r.uni(-0.1, 1.1));
    if (style != 1) std::sort(v.begin(), v.end());
    if (!v.empty())
    {
        if (r.chance(70)) v.back() = 1.0;
        if (r.chance(60)) v.front() = 0.0;
        if (r.chance(20)) v.back() = std::nextafter(1.0, r.chance(50) ? 0 : 2);
        if (r.chance(10)) v.front() = r.chance(50) ? -0.0 : -1e-300;
        if (r.chance(15)) { size_t i = r.in(0, (int)v.size() - 1); v[i] = std::nan(""); }
        if (r.chance(15)) { size_t i = r.in(0, (int)v.size() - 1); v[i] = std::nextafter(v[i], -1); }
        if (r.chance(8)) { size_t i = r.in(0, (int)v.size() - 1); v[i] = r.chance(50) ? INFINITY : -INFINITY; }
        if (r.chance(8) && v.size() > 1) std::swap(v[r.in(0, (int)v.size() - 1)], v[r.in(0, (int)v.size() - 1)]);
    }
    return v;
}
static bool legal(const vector<double>& v)
{
    if (v.empty()) return false;
    for (double x : v) if (x != x) return false;
    if (!(v[0] >= 0) || v.back() != 1.0) return false;
    for (size_t i = 1; i < v.size(); ++i) if (v[i] < v[i - 1]) return false;
    return true;
}
static bool bits(const vector<double>& a, const vector<double>& b)
{ return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), 8 * a.size())); }

CASE(C01)
{
    int what = r.in(0, 2);
    if (what == 2)
    {
        int p = r.in(0, 6), n = 2 * (p + 1) + r.in(0, 12);
        if (r.chance(2)) n = 2 * (p + 1) + r.in(0, 400);
        DESC("KnotVector::Uniform(" << p << "," << n << ")");
        KnotVector kv = KnotVector::Uniform(p, n);
        auto& v = kv.Values(); int in = n - 2 * (p + 1);
        CHECK((int)v.size() == n, "Uniform: " << v.size() << " knots instead of " << n);
        for (int i = 0; i < n; ++i)
        {
            double e = i <= p ? 0.0 : i >= n - p - 1 ? 1.0 : (double)(i - p) / (in + 1);
            CHECK(std::abs(v[i] - e) <= 1e-13, "Uniform: knot " << i << " is " << v[i] << " instead of " << e);
            if (i <= p || i >= n - p - 1) CHECK(v[i] == e, "Uniform: end knot " << i << " is " << v[i]);
        }
        CHECK(legal(v), "Uniform: illegal sequence");
        return n > 2 * (p + 1);
    }
    vector<double> want;
    bool ok = true, threw = false; vector<double> got;
    if (what == 0)
    {
        want = anySequence(r);
        DESC("KnotVector(" << want << ")");
        try { KnotVector kv(want); got = kv.Values(); } catch (const std::invalid_argument&) { threw = true; }
    }
    else
    {
        vector<KnotVector::KnotPair> ps;
        vector<double> s = anySequence(r);
        for (double x : s) { int m = r.in(0, 4); if (r.chance(5)) m = -1; ps.emplace_back(r.in(-3, 9), x, m); for (int i = 0; i < m; ++i) want.push_back(x); }
        if (g_verbose) { g_desc << "KnotVector(pairs):"; for (auto& q : ps) g_desc << " (" << q.Value << " x" << q.Multiplicity << ")"; g_desc << std::endl; }
        try { KnotVector kv(ps); got = kv.Values(); } catch (const std::invalid_argument&) { threw = true; }
    }
    ok = legal(want);
    CHECK(ok != threw, (ok ? "legal sequence rejected: " : "illegal sequence accepted: ") << want);
    if (ok) CHECK(bits(got, want), "stored sequence " << got << " differs from the requested " << want);
    return want.size() > 1;
}

CASE(C02)
{
    int p = r.in(0, 5);
    Knots K = genKnots(r, p, 7, r.in(1, 2));
    KnotVector kv; kv.Values() = K.U;
    double u = genParam(r, K.U);
    DESC("knots=" << K.U << " degree=" << p << " u=" << u);
    int k = kv.FindSpanIndex(p, u), e = oSpan(K.U, p, u);
    CHECK(k == e, "FindSpanIndex returned " << k << ", the span containing u is " << e);
    auto sp = kv.FindSpan(u);
    CHECK(sp.Left.Value == K.U[e] && sp.Right.Value == K.U[e + 1], "FindSpan returned [" << sp.Left.Value << "," << sp.Right.Value << "] for u=" << u);
    auto rs = runs(K.U);
    CHECK(sp.Index >= 0 && sp.Index + 1 < (int)rs.size() && rs[sp.Index].first == sp.Left.Value, "FindSpan index " << sp.Index);
    CHECK(rs[sp.Index].second == sp.Left.Multiplicity && rs[sp.Index + 1].second == sp.Right.Multiplicity, "FindSpan multiplicities");
    return K.spans > 1;
}

CASE(C03)
{
    vector<double> v;
    if (r.chance(50)) { int p = r.in(0, 4); v = genKnots(r, p, 6, r.in(1, 2)).U; if (r.chance(20)) v.pop_back(); if (r.chance(20)) v.erase(v.begin()); if (r.chance(5)) v.insert(v.begin(), 0.0); }
    else { int n = r.in(0, 9), st = r.in(1, 8); for (int i = 0; i < n; ++i) v.push_back(r.in(0, st) / (double)st); if (r.chance(85)) std::sort(v.begin(), v.end()); }
    if (!v.empty() && r.chance(10)) { int i = r.in(0, (int)v.size() - 1); v[i] = std::nextafter(v[i], r.chance(50) ? -1 : 2); }
    if (!v.empty() && r.chance(15)) { int i = r.in(0, (int)v.size() - 1); v[i] += (r.chance(50) ? 1 : -1) * r.uni(0.2e-6, 3e-6); }
    KnotVector kv; kv.Values() = v; const KnotVector& ck = kv;
    DESC("knots=" << v);
    bool sorted = std::is_sorted(v.begin(), v.end());
    if (sorted)
    {
        auto ps = ck.GetKnotPairs(); auto rs = runs(v);
        CHECK(ps.size() == rs.size(), "GetKnotPairs returned " << ps.size() << " runs instead of " << rs.size());
        int at = 0;
        for (size_t i = 0; i < rs.size(); ++i)
        {
            CHECK(ps[i].Value == rs[i].first && ps[i].Multiplicity == rs[i].second && ps[i].Index == at,
                  "run " << i << ": value " << ps[i].Value << " multiplicity " << ps[i].Multiplicity << " index " << ps[i].Index << " instead of " << rs[i].first << " x" << rs[i].second << " at " << at);
            at += rs[i].second;
        }
    }
    CHECK(ck.Count() == (int)v.size(), "Count");
    double q = v.empty() ? r.uni() : v[r.in(0, (int)v.size() - 1)] + (r.chance(50) ? 0 : r.uni(-2e-6, 2e-6));
    if (r.chance(20)) q = r.uni();
    int m = 0; for (double x : v) if (std::abs(x - q) < 1e-6) ++m;
    CHECK(ck.GetMultiplicity(q) == m, "GetMultiplicity(" << q << ") = " << ck.GetMultiplicity(q) << " instead of " << m);
    bool valid = v.size() >= 4 && v.front() == 0 && v.back() == 1 && sorted;
    CHECK(ck.IsValid() == valid, "IsValid is " << ck.IsValid());
    size_t z = 0, o = 0; while (z < v.size() && v[z] == 0) ++z; while (o < v.size() && v[v.size() - 1 - o] == 1) ++o;
    CHECK(ck.IsClamped() == (z == o && z > 0), "IsClamped is " << ck.IsClamped());
    if (z < v.size()) CHECK(ck.DetectDegree() == (int)z - 1, "DetectDegree is " << ck.DetectDegree());
    if (sorted)
    {
        double first = 0; bool uni = true;
        for (size_t i = 1; i < v.size(); ++i) { double d = v[i] - v[i - 1]; if (d == 0) continue; if (first == 0) first = d; else if (!(std::abs(d - first) < 1e-6)) uni = false; }
        CHECK(ck.IsUniform() == uni, "IsUniform is " << ck.IsUniform());
    }
    CHECK(bits(ck.Values(), v), "a query changed the knots");
    for (int i = 0; i < (int)v.size(); ++i) CHECK(ck(i) == v[i] && kv[i] == v[i], "knot access " << i);
    return v.size() > 3;
}

CASE(C04)
{
    int p = r.in(0, 4);
    Knots K = genKnots(r, p, 6, r.in(1, 2));
    KnotVector kv; kv.Values() = K.U;
    if (r.chance(50))
    {
        double x; int g = 0; do { x = genParam(r, K.U); } while ((x <= 0 || x >= 1) && g++ < 50);
        if (x <= 0 || x >= 1) x = 0.5;
        int t = r.in(0, 4);
        if (r.chance(30)) t = 1;
        DESC("InsertKnot(" << x << "," << t << ") into " << K.U);
        int ret = t == 1 && r.chance(50) ? kv.InsertKnot(x) : kv.InsertKnot(x, t);
        vector<double> e; int pos = 0; for (double q : K.U) if (q <= x) ++pos;
        for (int i = 0; i < pos; ++i) e.push_back(K.U[i]);
        for (int i = 0; i < t; ++i) e.push_back(x);
        for (size_t i = pos; i < K.U.size(); ++i) e.push_back(K.U[i]);
        CHECK(bits(kv.Values(), e), "after insertion: " << kv.Values() << " instead of " << e);
        CHECK(ret == pos - 1, "InsertKnot returned " << ret << " instead of " << pos - 1);
    }
    else
    {
        DESC("Reverse of " << K.U);
        kv.Reverse();
        auto& v = kv.Values(); size_t n = K.U.size();
        CHECK(v.size() == n, "Reverse changed the count");
        for (size_t i = 0; i < n; ++i) CHECK(v[i] == 1.0 - K.U[n - 1 - i], "Reverse: knot " << i << " is " << v[i] << " instead of " << 1.0 - K.U[n - 1 - i]);
        kv.Reverse();
        for (size_t i = 0; i < n; ++i) CHECK(std::abs(v[i] - K.U[i]) <= 2.3e-16, "reversing twice changed knot " << i);
    }
    return K.spans > 1;
}

CASE(C05)
{
    int p = r.in(0, 6);
    Knots K = genKnots(r, p, 6, r.in(1, 2));
    double x = genParam(r, K.U);
    DESC("degree=" << p << " knots=" << K.U << " x=" << x);
    KnotVector kv; kv.Values() = K.U;
    int s = oSpan(K.U, p, x);
    VecX b = r.chance(50) ? BSplineBasis::Evaluate(p, kv, x) : BSplineBasis::Evaluate(p, K.U, s, x);
    CHECK(b.size() == p + 1, "basis has " << b.size() << " entries");
    ld tol = 1e-12L, sum = 0;
    for (int i = 0; i <= p; ++i)
    {
        ld e = oN(K.U, s, s - p + i, p, 0, x);
        CHECK(std::isfinite(b[i]) && fabsl(b[i] - e) <= tol, "basis function " << s - p + i << " is " << b[i] << " instead of " << (double)e);
        CHECK(b[i] >= -1e-15, "negative basis function " << b[i]);
        sum += b[i];
    }
    CHECK(fabsl(sum - 1) <= tol * (p + 1), "basis functions sum to " << (double)sum);
    return K.spans > 1 && p > 0;
}

CASE(C06)
{
    int p = r.in(0, 6), order = r.in(0, p + 3);
    bool big = r.chance(2); if (big) { p = r.in(7, 14); order = r.chance(50) ? r.in(0, 4) : r.in(p - 2, p + 1); }
    Knots K = genKnots(r, p, big ? 2 : 5, r.chance(30) ? r.in(1, 2) : 0);
    double x = genParam(r, K.U);
    DESC("degree=" << p << " order=" << order << " knots=" << K.U << " x=" << x);
    KnotVector kv; kv.Values() = K.U;
    int s = oSpan(K.U, p, x);
    MatX b = r.chance(50) ? BSplineBasis::EvaluateAll(p, kv, x, order) : BSplineBasis::EvaluateAll(p, K.U, s, x, order);
    CHECK(b.rows() == order + 1 && b.cols() == p + 1, "table is " << b.rows() << "x" << b.cols());
    for (int k = 0; k <= order; ++k)
    {
        ld sum = 0, msum = 0;
        for (int i = 0; i <= p; ++i)
        {
            ld e = oN(K.U, s, s - p + i, p, k, x), m = oN(K.U, s, s - p + i, p, k, x, true);
            ld all = 0; for (int q = 0; q <= p; ++q) all += fabsl(oN(K.U, s, s - p + q, p, k, x, true));
            ld tol = 1e-11L * (all + fabsl(m));
            CHECK(std::isfinite(b(k, i)) && fabsl(b(k, i) - e) <= tol + (k > p ? 0 : 1e-300L), "derivative " << k << " of basis function " << s - p + i << " is " << b(k, i) << " instead of " << (double)e);
            sum += b(k, i); msum += fabsl(m);
        }
        if (k > 0) CHECK(fabsl(sum) <= 1e-10L * msum, "row " << k << " sums to " << (double)sum);
    }
    int k = r.in(0, order);
    VecX d = r.chance(50) ? BSplineBasis::EvaluateDerivative(p, kv, x, k) : BSplineBasis::EvaluateDerivative(p, K.U, s, x, k);
    CHECK(d.size() == p + 1, "EvaluateDerivative has " << d.size() << " entries");
    for (int i = 0; i <= p; ++i) CHECK(std::abs(d[i] - b(k, i)) <= 1e-9 * (std::abs(d[i]) + std::abs(b(k, i))), "EvaluateDerivative(" << k << ") entry " << i << " differs from EvaluateAll");
    return K.spans > 1 && p > 0 && order > 0;
}

template <int N> static Eigen::Vector<double, N> vec(Rng& r) { Eigen::Vector<double, N> v; for (int i = 0; i < N; ++i) v[i] = r.in(-1000, 1000); return v; }
template <int N> static bool gridCase(Rng& r)
{
    using T = Eigen::Vector<double, N>;
    int nu = r.in(1, 6), nv = r.in(1, 6);
    Grid<T> g; std::map<std::pair<int, int>, T> m;
    if (r.chance(30)) { T z = vec<N>(r); T z2 = z; g = Grid<T>(nu, nv, std::move(z2)); for (int u = 0; u < nu; ++u) for (int v = 0; v < nv; ++v) m[{u, v}] = z; DESC("Grid(" << nu << "," << nv << ",init)"); }
    else { g = Grid<T>(nu, nv); CHECK((int)g.Values.size() == nu * nv, "new grid has " << g.Values.size() << " values"); for (int u = 0; u < nu; ++u) for (int v = 0; v < nv; ++v) { T z = vec<N>(r); g.Get(u, v) = z; m[{u, v}] = z; } DESC("Grid(" << nu << "," << nv << ")"); }
    auto verify = [&](const char* op)
    {
        const Grid<T>& c = g;
        CHECK(c.UCount == nu && c.VCount == nv && c.Count() == nu * nv && (int)c.Values.size() == nu * nv, op << ": dimensions " << c.UCount << "x" << c.VCount << " (" << c.Values.size() << " values), expected " << nu << "x" << nv);
        for (int u = 0; u < nu; ++u) for (int v = 0; v < nv; ++v)
        {
            CHECK(c.Get(u, v) == (m[{u, v}]), op << ": cell (" << u << "," << v << ") is wrong");
            CHECK(&c.Get(u, v) == &g.Get(u, v), op << ": const access addresses another cell");
        }
        for (int u = 0; u < nu; ++u) { auto l = c.GetU(u); CHECK((int)l.size() == nv, op << ": GetU size"); for (int v = 0; v < nv; ++v) CHECK(l[v] == (m[{u, v}]), op << ": GetU(" << u << ")[" << v << "]"); }
        for (int v = 0; v < nv; ++v) { auto l = c.GetV(v); CHECK((int)l.size() == nu, op << ": GetV size"); for (int u = 0; u < nu; ++u) CHECK(l[u] == (m[{u, v}]), op << ": GetV(" << v << ")[" << u << "]"); }
    };
    verify("construction");
    int ops = r.in(1, 5);
    for (int o = 0; o < ops; ++o)
    {
        int w = r.in(0, 4);
        if (w == 0) { int u = r.in(0, nu - 1), v = r.in(0, nv - 1); T z = vec<N>(r); DESC("Get(" << u << "," << v << ")="); g.Get(u, v) = z; m[{u, v}] = z; verify("Get"); }
        else if (w == 1) { int u = r.in(0, nu - 1); vector<T> l(nv); for (auto& z : l) z = vec<N>(r); DESC("SetU(" << u << ")"); g.SetU(u, l); for (int v = 0; v < nv; ++v) m[{u, v}] = l[v]; verify("SetU"); }
        else if (w == 2) { int v = r.in(0, nv - 1); vector<T> l(nu); for (auto& z : l) z = vec<N>(r); DESC("SetV(" << v << ")"); g.SetV(v, l); for (int u = 0; u < nu; ++u) m[{u, v}] = l[u]; verify("SetV"); }
        else if (w == 3)
        {
            int k = r.in(0, nu - 1); T z = vec<N>(r); DESC("InsertU(" << k << ") on " << nu << "x" << nv); g.InsertU(k, z);
            std::map<std::pair<int, int>, T> m2;
            for (auto& [a, b] : m) m2[{a.first >= k ? a.first + 1 : a.first, a.second}] = b;
            for (int v = 0; v < nv; ++v) m2[{k, v}] = z;
            m = m2; ++nu; verify("InsertU");
        }
        else
        {
            int k = r.in(0, nv - 1); T z = vec<N>(r); DESC("InsertV(" << k << ") on " << nu << "x" << nv); g.InsertV(k, z);
            std::map<std::pair<int, int>, T> m2;
            for (auto& [a, b] : m) m2[{a.first, a.second >= k ? a.second + 1 : a.second}] = b;
            for (int u = 0; u < nu; ++u) m2[{u, k}] = z;
            m = m2; ++nv; verify("InsertV");
        }
    }
    return nu > 1 && nv > 1;
}
CASE(C18) { return r.chance(60) ? gridCase<4>(r) : gridCase<3>(r); }

CASE(C19)
{
    auto pt = [&] { double s = r.chance(30) ? 3 : 1000; int k = r.in(0, 2); return k == 0 ? Vec3(r.in(-3, 3), r.in(-3, 3), r.in(-3, 3)) : k == 1 ? Vec3(r.uni(-s, s), r.uni(-s, s), r.uni(-s, s)) : Vec3(r.uni(5, 9), r.uni(-9, -5), r.uni(-1, 1)); };
    Vec3 a = pt(), b = pt();
    DESC("box from (" << a.transpose() << ") and (" << b.transpose() << ")");
    BoundingBox x(a, b);
    Vec3 lo, hi; for (int i = 0; i < 3; ++i) { lo[i] = a[i] < b[i] ? a[i] : b[i]; hi[i] = a[i] < b[i] ? b[i] : a[i]; }
    auto verify = [&](const char* op)
    {
        CHECK(x.Min == lo && x.Max == hi, op << ": box [" << x.Min.transpose() << " | " << x.Max.transpose() << "] instead of [" << lo.transpose() << " | " << hi.transpose() << "]");
        for (int i = 0; i < 3; ++i)
        {
            CHECK(x.Length()[i] == hi[i] - lo[i], op << ": length");
            CHECK(std::abs(x.Center()[i] - (lo[i] + hi[i]) / 2) <= 1e-12 * (1 + std::abs(lo[i]) + std::abs(hi[i])), op << ": centre");
        }
        ld v = ((ld)hi[0] - lo[0]) * ((ld)hi[1] - lo[1]) * ((ld)hi[2] - lo[2]);
        CHECK(fabsl(x.Volume() - v) <= 1e-9L * (1 + fabsl(v)), op << ": volume " << x.Volume());
    };
    auto in = [&](const Vec3& q) { for (int i = 0; i < 3; ++i) if (q[i] < lo[i] || q[i] > hi[i]) return false; return true; };
    verify("construction");
    for (int o = r.in(1, 4); o > 0; --o)
    {
        Vec3 c = pt(), d = pt();
        if (r.chance(50)) { DESC("ExpandToInclude(" << c.transpose() << ")"); x.ExpandToInclude(c); for (int i = 0; i < 3; ++i) { lo[i] = std::min(lo[i], c[i]); hi[i] = std::max(hi[i], c[i]); } }
        else { DESC("ExpandToInclude(box " << c.transpose() << " " << d.transpose() << ")"); x.ExpandToInclude(BoundingBox(c, d)); for (int i = 0; i < 3; ++i) { lo[i] = std::min({lo[i], c[i], d[i]}); hi[i] = std::max({hi[i], c[i], d[i]}); } }
        verify("ExpandToInclude");
        Vec3 q = pt();
        for (int i = 0; i < 3; ++i) { int w = r.in(0, 5); if (w == 0) q[i] = lo[i]; if (w == 1) q[i] = hi[i]; if (w == 2) q[i] = std::nextafter(lo[i], -1e9); if (w == 3) q[i] = (lo[i] + hi[i]) / 2; if (w == 4) q[i] = std::nextafter(hi[i], 1e9); }
        CHECK(x.Contains(q) == in(q), "Contains(" << q.transpose() << ") is " << x.Contains(q));
        Vec3 q2 = pt(); for (int i = 0; i < 3; ++i) if (r.chance(60)) q2[i] = (lo[i] + hi[i]) / 2;
        CHECK(x.Contains(BoundingBox(q, q2)) == (in(q.cwiseMin(q2)) && in(q.cwiseMax(q2))), "Contains(box)");
    }
    return true;
}

CASE(C26)
{
    int n = r.in(0, 29), k = r.chance(20) ? r.in(0, 1000) : r.in(0, 31);
    DESC("Binomial(" << n << "," << k << ")");
    CHECK((ld)Binomial(n, k) == oBin(n, k), "Binomial(" << n << "," << k << ") = " << Binomial(n, k));
    int f = r.in(0, 9); int e = 1; for (int i = 2; i <= f; ++i) e *= i;
    CHECK(Factorial(f) == e, "Factorial(" << f << ") = " << Factorial(f));
    double eps = r.chance(50) ? 1e-6 : std::pow(10.0, -r.in(0, 12)), a = r.uni(-10, 10), b = a + (r.chance(50) ? r.uni(-2, 2) * eps : r.uni(-1, 1));
    if (r.chance(20)) { a = 0; b = r.chance(50) ? eps : -eps; }
    if (r.chance(20)) { a = 0; b = std::nextafter(eps, 0); if (r.chance(50)) b = -b; }
    DESC("Approx(" << a << "," << b << "," << eps << ")");
    CHECK(Approx(a, b, eps) == (std::fabs(a - b) < eps), "Approx(" << a << "," << b << "," << eps << ") is " << Approx(a, b, eps));
    CHECK(Approx(a, b) == (std::fabs(a - b) < 1e-6), "Approx(" << a << "," << b << ") is " << Approx(a, b));
    Vec3 v(a, r.uni(-1, 1), r.uni(-1, 1)), w = v; w[0] = b; if (r.chance(50)) std::swap(v[0], v[r.in(0, 2)]);
    w = v; w[r.in(0, 2)] += (b - a); if (r.chance(40)) w[r.in(0, 2)] -= r.uni(0, 2) * eps;
    bool all = true; for (int i = 0; i < 3; ++i) if (!(std::fabs(v[i] - w[i]) < eps)) all = false;
    CHECK(Approx(v, w, eps) == all, "Approx of vectors (" << v.transpose() << ") (" << w.transpose() << ") eps " << eps);
    return n > 1 && k > 0;
}
