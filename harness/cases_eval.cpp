#include "common.hpp"

CASE(C07)
{
    double gap; Curve c = genCurve(r, 1, 5, 5, r.in(1, 2), &gap);
    if (r.chance(15)) { size_t i = r.in(0, (int)c.ControlPoints.size() - 1); for (auto& p : c.ControlPoints) p[3] = 0.75; if (r.chance(70)) c.ControlPoints[i][3] = std::nextafter(0.75, r.chance(50) ? 1 : 0); }
    describe("curve", c);
    Curve before = c;
    double sc = scaleOf(c.ControlPoints), tol = sc * 1e-11 + 1e-14;
    for (double x : params(r, c.Knots.Values(), 4))
    {
        DESC("Evaluate(" << x << ")");
        Vec3 g = c.Evaluate(x); L3 e = oPoint(c, x);
        CHECK(finite3(g) && dist(toL(g), e) <= tol, "Evaluate(" << x << ") = (" << g.transpose() << ") instead of (" << (double)e.x << " " << (double)e.y << " " << (double)e.z << ")");
        int s = oSpan(c.Knots.Values(), c.Degree, x);
        for (int d = 0; d < 3; ++d)
        {
            double lo = 1e300, hi = -1e300; for (int i = s - c.Degree; i <= s; ++i) { lo = std::min(lo, c.ControlPoints[i][d]); hi = std::max(hi, c.ControlPoints[i][d]); }
            CHECK(g[d] >= lo - tol && g[d] <= hi + tol, "Evaluate(" << x << ") leaves the convex hull");
        }
    }
    CHECK(dist(toL(c.Evaluate(0)), toL(c.ControlPoints.front().head<3>())) <= tol, "curve does not start at the first control point");
    CHECK(dist(toL(c.Evaluate(1)), toL(c.ControlPoints.back().head<3>())) <= tol, "curve does not end at the last control point");
    bool rat = false; for (auto& p : c.ControlPoints) if (p[3] != c.ControlPoints[0][3]) rat = true;
    CHECK(c.IsRational() == rat, "IsRational is " << c.IsRational());
    CHECK(same(c, before), "the curve was modified");
    return c.ControlPoints.size() > (size_t)c.Degree + 1;
}

CASE(C08)
{
    double gap; Curve c = genCurve(r, 1, 5, 5, r.chance(30) ? r.in(1, 2) : 0, &gap);
    describe("curve", c);
    int order = r.in(0, c.Degree + 2);
    if (r.chance(5)) order = r.in(0, 9);
    double x = genParam(r, c.Knots.Values());
    DESC("EvaluateAll(" << x << "," << order << ")");
    auto g = c.EvaluateAll(x, order); auto e = oCurve(c, x, order);
    CHECK((int)g.size() == order + 1, "EvaluateAll returned " << g.size() << " entries");
    for (int k = 0; k <= order; ++k)
        CHECK(finite3(g[k]) && dist(toL(g[k]), e[k].v) <= 1e-10L * e[k].mag + 1e-300L,
              "derivative " << k << " at " << x << " is (" << g[k].transpose() << ") instead of (" << (double)e[k].v.x << " " << (double)e[k].v.y << " " << (double)e[k].v.z << ")");
    int k = r.in(0, order);
    DESC("EvaluateDerivative(" << x << "," << k << ")");
    Vec3 d = c.EvaluateDerivative(x, k);
    CHECK(dist(toL(d), toL(g[k])) <= 1e-9L * e[k].mag + 1e-300L, "EvaluateDerivative(" << x << "," << k << ") differs from EvaluateAll");
    CHECK(dist(toL(c.Evaluate(x)), toL(g[0])) <= 1e-9L * e[0].mag + 1e-300L, "order 0 differs from Evaluate");
    return order > 0 && c.ControlPoints.size() > (size_t)c.Degree + 1;
}

CASE(C09)
{
    double gap; Surface s = genSurface(r, 1, 4, 4, r.in(1, 2), &gap);
    if (r.chance(15)) { auto& V = s.ControlPoints.Values; for (auto& p : V) p[3] = 0.75; if (r.chance(70)) V[r.in(0, (int)V.size() - 1)][3] = std::nextafter(0.75, r.chance(50) ? 1 : 0); }
    describe("surface", s);
    Surface before = s;
    double sc = scaleOf(s.ControlPoints.Values), tol = sc * 1e-11 + 1e-14;
    for (int t = 0; t < 6; ++t)
    {
        double u = genParam(r, s.KnotsU.Values()), v = genParam(r, s.KnotsV.Values());
        DESC("Evaluate(" << u << "," << v << ")");
        Vec3 g = s.Evaluate(u, v); L3 e = oPoint(s, u, v);
        CHECK(finite3(g) && dist(toL(g), e) <= tol, "Evaluate(" << u << "," << v << ") = (" << g.transpose() << ") instead of (" << (double)e.x << " " << (double)e.y << " " << (double)e.z << ")");
    }
    int nu = s.ControlPoints.UCount, nv = s.ControlPoints.VCount;
    auto cp = [&](int i, int j) { return toL(Vec3(s.ControlPoints.Values[(size_t)j * nu + i].head<3>())); };
    CHECK(dist(toL(s.Evaluate(0, 0)), cp(0, 0)) <= tol && dist(toL(s.Evaluate(1, 0)), cp(nu - 1, 0)) <= tol && dist(toL(s.Evaluate(0, 1)), cp(0, nv - 1)) <= tol && dist(toL(s.Evaluate(1, 1)), cp(nu - 1, nv - 1)) <= tol, "a corner of the surface is not its control point");
    bool rat = false; for (auto& p : s.ControlPoints.Values) if (p[3] != s.ControlPoints.Values[0][3]) rat = true;
    CHECK(s.IsRational() == rat, "IsRational is " << s.IsRational());
    CHECK(same(s, before), "the surface was modified");
    return nu > s.DegreeU + 1 || nv > s.DegreeV + 1;
}

CASE(C10)
{
    double gap; Surface s = genSurface(r, 1, 4, 3, r.chance(20) ? r.in(1, 2) : 0, &gap);
    describe("surface", s);
    int ou = r.in(0, 4), ov = r.in(0, 4);
    double u = genParam(r, s.KnotsU.Values()), v = genParam(r, s.KnotsV.Values());
    DESC("EvaluateAll(" << u << "," << v << "," << ou << "," << ov << ")");
    auto g = s.EvaluateAll(u, v, ou, ov); auto e = oSurface(s, u, v, ou, ov);
    CHECK(g.UCount == ou + 1 && g.VCount == ov + 1 && (int)g.Values.size() == (ou + 1) * (ov + 1), "table is " << g.UCount << "x" << g.VCount);
    for (int k = 0; k <= ou; ++k)
        for (int l = 0; l <= ov; ++l)
        {
            Vec3 q = g.Values[(size_t)l * (ou + 1) + k];
            CHECK(finite3(q) && dist(toL(q), e[k][l].v) <= 1e-10L * e[k][l].mag + 1e-300L,
                  "derivative (" << k << "," << l << ") at (" << u << "," << v << ") is (" << q.transpose() << ") instead of (" << (double)e[k][l].v.x << " " << (double)e[k][l].v.y << " " << (double)e[k][l].v.z << ")");
        }
    int k = r.in(0, ou), l = r.in(0, ov);
    DESC("EvaluateDerivative(" << u << "," << v << "," << k << "," << l << ")");
    Vec3 d = s.EvaluateDerivative(u, v, k, l);
    CHECK(dist(toL(d), toL(g.Values[(size_t)l * (ou + 1) + k])) <= 1e-9L * e[k][l].mag + 1e-300L, "EvaluateDerivative(" << k << "," << l << ") differs from EvaluateAll");
    CHECK(dist(toL(s.Evaluate(u, v)), toL(g.Values[0])) <= 1e-9L * e[0][0].mag + 1e-300L, "entry (0,0) differs from Evaluate");
    return ou > 0 && ov > 0;
}

// ---- knot insertion -------------------------------------------------------------------------
// list of values strictly inside (0,1), total multiplicity at most p
static vector<double> genInsert(Rng& r, const vector<double>& U, int p, int want)
{
    vector<double> out; std::map<double, int> m;
    for (double t : U) ++m[t];
    int guard = 0;
    while ((int)out.size() < want && guard++ < 100)
    {
        double x = genParam(r, U);
        if (r.chance(30) && !out.empty()) x = out[r.in(0, (int)out.size() - 1)];
        if (x <= 0 || x >= 1) continue;
        bool ok = m[x] < p;
        for (auto& [t, c] : m) if (c > 0 && t != x && std::abs(t - x) < 1e-12) ok = false;
        if (!ok) continue;
        ++m[x]; out.push_back(x);
    }
    return out;
}
static vector<double> merged(vector<double> U, const vector<double>& x) { U.insert(U.end(), x.begin(), x.end()); std::sort(U.begin(), U.end()); return U; }

CASE(C11)
{
    double gap; Curve c = genCurve(r, 1, 5, 4, r.chance(50) ? r.in(1, 2) : 0, &gap);
    for (auto& p : c.ControlPoints) p[3] = std::min(1e2, std::max(1e-2, p[3]));   // 1 - alpha carries an absolute rounding error, amplified by the ratio of the weights
    describe("curve", c);
    Curve before = c;
    auto xs = genInsert(r, c.Knots.Values(), c.Degree, r.in(1, 4));
    if (xs.empty()) return false;
    int how = r.in(0, 2);
    if (how == 1) { double x = xs[0]; int m = 0; for (double t : c.Knots.Values()) if (t == x) ++m; xs.assign(r.in(0, c.Degree - m), x); if (xs.empty()) { Curve z = c.InsertKnot(x, 0); CHECK(same(z, c), "inserting zero times changed the curve"); return false; } }
    if (how == 0) xs.resize(1);
    ld tol = 1e-9L * scaleOf(c.ControlPoints) + 1e-13L;
    DESC("insert by " << (how == 0 ? "single" : how == 1 ? "repeated" : "list") << ": " << xs);
    Curve a = how == 0 ? c.InsertKnot(xs[0]) : how == 1 ? c.InsertKnot(xs[0], (int)xs.size()) : [&] { vector<double> l = xs; Curve q = c.InsertKnot(std::span<double>(l)); CHECK(l == xs, "the list was modified"); return q; }();
    CHECK(same(c, before), "the original curve was modified");
    CHECK(a.Degree == c.Degree, "degree changed to " << a.Degree);
    CHECK(a.ControlPoints.size() == c.ControlPoints.size() + xs.size(), "control point count " << a.ControlPoints.size());
    CHECK(a.Knots.Values() == merged(c.Knots.Values(), xs), "knots after insertion: " << a.Knots.Values());
    checkValid(a, "after insertion");
    sameShape(r, c, a, tol, "after insertion");
    // control points by the insertion formula, in homogeneous coordinates
    Curve e = c;
    for (double x : xs)
    {
        auto& U = e.Knots.Values(); int p = e.Degree, k = oSpan(U, p, x);
        vector<Vec4> Q;
        for (int i = 0; i <= (int)e.ControlPoints.size(); ++i)
        {
            ld al = i <= k - p ? 1 : i > k ? 0 : ((ld)x - U[i]) / ((ld)U[i + p] - U[i]);
            ld h[4] = {0, 0, 0, 0};
            for (int d = 0; d < 4; ++d)
            {
                if (al != 0) { auto& P = e.ControlPoints[i]; h[d] += al * (d < 3 ? (ld)P[d] * P[3] : P[3]); }
                if (al != 1) { auto& P = e.ControlPoints[i - 1]; h[d] += (1 - al) * (d < 3 ? (ld)P[d] * P[3] : P[3]); }
            }
            Q.push_back(Vec4(h[0] / h[3], h[1] / h[3], h[2] / h[3], h[3]));
        }
        e.ControlPoints = Q; U.insert(U.begin() + k + 1, x);
    }
    double wm = 0; for (auto& P : c.ControlPoints) wm = std::max(wm, P[3]);
    for (size_t i = 0; i < e.ControlPoints.size(); ++i)
    {
        CHECK(dist(toL(Vec3(e.ControlPoints[i].head<3>())), toL(Vec3(a.ControlPoints[i].head<3>()))) <= 10 * tol, "control point " << i << " is (" << a.ControlPoints[i].transpose() << ") instead of (" << e.ControlPoints[i].transpose() << ")");
        CHECK(std::abs(e.ControlPoints[i][3] - a.ControlPoints[i][3]) <= 1e-9 * wm, "weight " << i << " is " << a.ControlPoints[i][3] << " instead of " << e.ControlPoints[i][3]);
    }
    return c.ControlPoints.size() > (size_t)c.Degree + 1;
}

CASE(C12)
{
    double gap; Surface s = genSurface(r, 1, 4, 3, r.chance(50) ? r.in(1, 2) : 0, &gap);
    for (auto& p : s.ControlPoints.Values) p[3] = std::min(1e2, std::max(1e-2, p[3]));   // 1 - alpha carries an absolute rounding error, amplified by the ratio of the weights
    describe("surface", s);
    Surface before = s; bool U = r.chance(50);
    const auto& K = U ? s.KnotsU.Values() : s.KnotsV.Values(); int p = U ? s.DegreeU : s.DegreeV;
    auto xs = genInsert(r, K, p, r.in(1, 3));
    if (xs.empty()) return false;
    int how = r.in(0, 2);
    if (how == 1) { double x = xs[0]; int m = 0; for (double t : K) if (t == x) ++m; xs.assign(r.in(1, p - m), x); }
    if (how == 0) xs.resize(1);
    ld tol = 1e-9L * scaleOf(s.ControlPoints.Values) + 1e-13L;
    DESC("insert in " << (U ? "U" : "V") << " by " << (how == 0 ? "single" : how == 1 ? "repeated" : "list") << ": " << xs);
    vector<double> l = xs;
    Surface a = U ? (how == 0 ? s.InsertKnotU(xs[0]) : how == 1 ? s.InsertKnotU(xs[0], (int)xs.size()) : s.InsertKnotU(std::span<double>(l)))
                  : (how == 0 ? s.InsertKnotV(xs[0]) : how == 1 ? s.InsertKnotV(xs[0], (int)xs.size()) : s.InsertKnotV(std::span<double>(l)));
    CHECK(same(s, before), "the original surface was modified");
    CHECK(a.DegreeU == s.DegreeU && a.DegreeV == s.DegreeV, "degree changed");
    CHECK(a.ControlPoints.UCount == s.ControlPoints.UCount + (U ? (int)xs.size() : 0) && a.ControlPoints.VCount == s.ControlPoints.VCount + (U ? 0 : (int)xs.size()), "grid is " << a.ControlPoints.UCount << "x" << a.ControlPoints.VCount);
    CHECK(a.KnotsU.Values() == (U ? merged(s.KnotsU.Values(), xs) : s.KnotsU.Values()), "U knots: " << a.KnotsU.Values());
    CHECK(a.KnotsV.Values() == (U ? s.KnotsV.Values() : merged(s.KnotsV.Values(), xs)), "V knots: " << a.KnotsV.Values());
    checkValid(a, "after insertion");
    sameShape(r, s, a, tol, "after insertion");
    return true;
}

// ---- knot removal ---------------------------------------------------------------------------
static vector<double> without(const vector<double>& U, double x, int t)
{
    vector<double> o; int skip = t;
    for (double q : U) if (q == x && skip > 0) --skip; else o.push_back(q);
    return o;
}
CASE(C13)
{
    bool surf = r.chance(40);
    if (!surf)
    {
        Curve c = genCurve(r, 1, 4, 4, false, nullptr, true);
        for (auto& p : c.ControlPoints) { p[3] = std::min(4.0, std::max(0.25, p[3])); for (int d = 0; d < 3; ++d) p[d] = std::max(-50.0, std::min(50.0, p[d])); }
        Curve base = c; double x = 0.5; int inserted = 0;
        auto ins = genInsert(r, c.Knots.Values(), c.Degree, 1);
        if (!ins.empty()) x = std::round(ins[0] * 32) / 32;
        if (x <= 0 || x >= 1) x = 0.5;
        int m = 0; for (double t : c.Knots.Values()) if (t == x) ++m;
        bool close = false; for (double t : c.Knots.Values()) if (t != x && std::abs(t - x) < 0.02) close = true;
        if (close) return false;
        int mode = r.in(0, 2);
        if (mode != 2) { inserted = m < c.Degree ? r.in(1, c.Degree - m) : 0; if (inserted) c = c.InsertKnot(x, inserted); }
        double tolerance = 1e-5;
        if (mode == 1) { tolerance = std::pow(10.0, -r.in(1, 4)); for (auto& p : c.ControlPoints) for (int d = 0; d < 3; ++d) p[d] += r.uni(-1, 1) * tolerance * 0.02; }
        if (mode == 2) tolerance = std::pow(10.0, r.in(-4, -1));
        int mult = 0; for (double t : c.Knots.Values()) if (t == x) ++mult;
        int want = r.chance(50) && inserted ? inserted : r.in(1, c.Degree + 1);
        describe("curve", c);
        DESC("RemoveKnot(" << x << "," << want << "," << tolerance << ") multiplicity " << mult << " inserted " << inserted);
        Curve keep = c;
        auto [a, t] = c.RemoveKnot(x, want, tolerance);
        CHECK(same(keep, c), "the original curve was modified");
        CHECK(t >= 0 && t <= std::min(want, mult), "reports " << t << " removals of a knot with multiplicity " << mult);
        CHECK(a.Degree == c.Degree && a.ControlPoints.size() == c.ControlPoints.size() - t, "control points: " << a.ControlPoints.size() << " after " << t << " removals from " << c.ControlPoints.size());
        CHECK(a.Knots.Values() == without(c.Knots.Values(), x, t), "knots after " << t << " removals: " << a.Knots.Values());
        checkValid(a, "after removal");
        if (t == 0) { CHECK(same(a, c), "nothing removed but the curve changed"); }
        else sameShape(r, c, a, 2 * t * tolerance + 1e-9, "after removal");
        if (mode == 0 && inserted)
        {
            CHECK(t >= std::min(want, inserted), "only " << t << " of " << inserted << " just inserted knots removed (asked for " << want << ")");
            if (want == inserted) for (size_t i = 0; i < base.ControlPoints.size(); ++i)
                CHECK((base.ControlPoints[i] - a.ControlPoints[i]).cwiseAbs().maxCoeff() <= 1e-5 * (1 + scaleOf(base.ControlPoints)), "control point " << i << " not restored");
        }
        return t > 0;
    }
    Surface s = genSurface(r, 1, 3, 3, false, nullptr, true);
    for (auto& p : s.ControlPoints.Values) { p[3] = std::min(4.0, std::max(0.25, p[3])); for (int d = 0; d < 3; ++d) p[d] = std::max(-50.0, std::min(50.0, p[d])); }
    bool U = r.chance(50); Surface base = s;
    int p = U ? s.DegreeU : s.DegreeV; auto K0 = U ? s.KnotsU.Values() : s.KnotsV.Values();
    double x = 0.5; auto ins = genInsert(r, K0, p, 1); if (!ins.empty()) x = std::round(ins[0] * 32) / 32; if (x <= 0 || x >= 1) x = 0.5;
    int m = 0; bool close = false; for (double t : K0) { if (t == x) ++m; else if (std::abs(t - x) < 0.02) close = true; }
    if (close) return false;
    int inserted = 0, mode = r.in(0, 2);
    if (mode != 2 && m < p) { inserted = r.in(1, p - m); s = U ? s.InsertKnotU(x, inserted) : s.InsertKnotV(x, inserted); }
    double tolerance = 1e-5;
    if (mode == 1) { tolerance = std::pow(10.0, -r.in(1, 4)); for (auto& q : s.ControlPoints.Values) for (int d = 0; d < 3; ++d) q[d] += r.uni(-1, 1) * tolerance * 0.02; }
    if (mode == 2) tolerance = std::pow(10.0, r.in(-4, -1));
    if (mode == 0 && inserted && r.chance(35))
    {   // break one line only: then nothing may be removed inconsistently
        auto& g = s.ControlPoints; int line = r.in(0, (U ? g.VCount : g.UCount) - 1), at = r.in(0, (U ? g.UCount : g.VCount) - 1);
        (U ? g.Get(at, line) : g.Get(line, at))[r.in(0, 2)] += 3; mode = 3;
    }
    auto K = U ? s.KnotsU.Values() : s.KnotsV.Values(); int mult = 0; for (double t : K) if (t == x) ++mult;
    int want = r.chance(50) && inserted ? inserted : r.in(1, p + 1);
    describe("surface", s);
    DESC("RemoveKnot" << (U ? "U" : "V") << "(" << x << "," << want << "," << tolerance << ") multiplicity " << mult << " inserted " << inserted);
    Surface keep = s;
    auto [a, t] = U ? s.RemoveKnotU(x, want, tolerance) : s.RemoveKnotV(x, want, tolerance);
    CHECK(same(keep, s), "the original surface was modified");
    CHECK(t >= 0 && t <= std::min(want, mult), "reports " << t << " removals of a knot with multiplicity " << mult);
    if (t == 0) { CHECK(same(a, s), "nothing removed but the surface changed"); }
    CHECK(a.DegreeU == s.DegreeU && a.DegreeV == s.DegreeV, "degree changed");
    CHECK(a.ControlPoints.UCount == s.ControlPoints.UCount - (U ? t : 0) && a.ControlPoints.VCount == s.ControlPoints.VCount - (U ? 0 : t), "grid is " << a.ControlPoints.UCount << "x" << a.ControlPoints.VCount << " after " << t << " removals");
    CHECK(a.KnotsU.Values() == (U ? without(s.KnotsU.Values(), x, t) : s.KnotsU.Values()) && a.KnotsV.Values() == (U ? s.KnotsV.Values() : without(s.KnotsV.Values(), x, t)), "knots after " << t << " removals");
    checkValid(a, "after removal");
    int lines = U ? s.ControlPoints.VCount : s.ControlPoints.UCount;
    for (int l = 0; l < lines && t > 0; ++l)
    {
        Curve c1, c2; c1.Degree = c2.Degree = p; c1.Knots = U ? s.KnotsU : s.KnotsV; c2.Knots = U ? a.KnotsU : a.KnotsV;
        int n1 = U ? s.ControlPoints.UCount : s.ControlPoints.VCount, n2 = n1 - t;
        for (int i = 0; i < n1; ++i) c1.ControlPoints.push_back(s.ControlPoints.Values[U ? (size_t)l * s.ControlPoints.UCount + i : (size_t)i * s.ControlPoints.UCount + l]);
        for (int i = 0; i < n2; ++i) c2.ControlPoints.push_back(a.ControlPoints.Values[U ? (size_t)l * a.ControlPoints.UCount + i : (size_t)i * a.ControlPoints.UCount + l]);
        sameShape(r, c1, c2, 2 * t * tolerance + 1e-9, "line of control points after removal");
    }
    if (mode == 0 && inserted)
    {
        if (want <= inserted) CHECK(t >= std::min(want, inserted), "only " << t << " of " << inserted << " just inserted knots removed (asked for " << want << ")");
        if (want == inserted) for (size_t i = 0; i < base.ControlPoints.Values.size(); ++i)
            CHECK((base.ControlPoints.Values[i] - a.ControlPoints.Values[i]).cwiseAbs().maxCoeff() <= 1e-5 * (1 + scaleOf(base.ControlPoints.Values)), "control point " << i << " not restored");
    }
    return t > 0;
}

// ---- degree elevation -----------------------------------------------------------------------
static vector<double> raised(const vector<double>& U, int t)
{ vector<double> o; for (auto& [x, m] : runs(U)) for (int i = 0; i < m + t; ++i) o.push_back(x); return o; }
CASE(C14)
{
    int t = r.in(1, 4);
    if (r.chance(4)) t = r.in(5, 9);
    if (r.chance(55))
    {
        bool close = r.chance(35); Curve c = genCurve(r, 1, close ? 3 : 5, 5, close ? 3 : 0, nullptr, !close);
        for (auto& p : c.ControlPoints) p[3] = std::min(4.0, std::max(0.25, p[3]));
        describe("curve", c); DESC("ElevateDegree(" << t << ")");
        Curve before = c, a = c.ElevateDegree(t);
        CHECK(same(c, before), "the original curve was modified");
        CHECK(a.Degree == c.Degree + t, "degree " << a.Degree << " instead of " << c.Degree + t);
        CHECK(a.Knots.Values() == raised(c.Knots.Values(), t), "knots after elevation: " << a.Knots.Values() << " instead of " << raised(c.Knots.Values(), t));
        checkValid(a, "after elevation");
        sameShape(r, c, a, 1e-6L * scaleOf(c.ControlPoints) + 1e-12L, "after elevation");
        return c.ControlPoints.size() > (size_t)c.Degree + 1;
    }
    bool close = r.chance(35); Surface s = genSurface(r, 1, close ? 3 : 4, 3, close ? 3 : 0, nullptr, !close); bool U = r.chance(50); t = std::min(t, 3);
    for (auto& p : s.ControlPoints.Values) p[3] = std::min(4.0, std::max(0.25, p[3]));
    describe("surface", s); DESC("ElevateDegree" << (U ? "U" : "V") << "(" << t << ")");
    Surface before = s, a = U ? s.ElevateDegreeU(t) : s.ElevateDegreeV(t);
    CHECK(same(s, before), "the original surface was modified");
    CHECK(a.DegreeU == s.DegreeU + (U ? t : 0) && a.DegreeV == s.DegreeV + (U ? 0 : t), "degrees " << a.DegreeU << "," << a.DegreeV);
    CHECK(a.KnotsU.Values() == (U ? raised(s.KnotsU.Values(), t) : s.KnotsU.Values()) && a.KnotsV.Values() == (U ? s.KnotsV.Values() : raised(s.KnotsV.Values(), t)), "knots after elevation");
    checkValid(a, "after elevation");
    if (U) CHECK(a.ControlPoints.VCount == s.ControlPoints.VCount, "VCount changed"); else CHECK(a.ControlPoints.UCount == s.ControlPoints.UCount, "UCount changed");
    sameShape(r, s, a, 1e-6L * scaleOf(s.ControlPoints.Values) + 1e-12L, "after elevation");
    return true;
}

// ---- Bezier extraction, bounding box --------------------------------------------------------
CASE(C20)
{
    Curve c = genCurve(r, 1, 5, 6, r.chance(60) ? r.in(0, 2) : 0);
    for (auto& p : c.ControlPoints) p[3] = std::min(1e2, std::max(1e-2, p[3]));   // 1 - alpha carries an absolute rounding error, amplified by the ratio of the weights
    describe("curve", c); Curve before = c;
    auto segs = c.ExtractBezier();
    CHECK(same(c, before), "the original curve was modified");
    auto rs = runs(c.Knots.Values());
    CHECK(segs.size() == rs.size() - 1, segs.size() << " pieces for " << rs.size() - 1 << " spans");
    ld tol = 1e-8L * scaleOf(c.ControlPoints) + 1e-13L;
    for (size_t i = 0; i < segs.size(); ++i)
    {
        auto& g = segs[i];
        CHECK(g.Degree == c.Degree && g.ControlPoints.size() == (size_t)c.Degree + 1, "piece " << i << ": degree " << g.Degree << ", " << g.ControlPoints.size() << " points");
        checkValid(g, "piece");
        for (int k = 0; k < 6; ++k)
        {
            double s = k == 0 ? 0 : k == 1 ? 1 : r.uni();
            ld a = rs[i].first, b = rs[i + 1].first; double x = (double)(a + (b - a) * s);
            if (k == 1) x = (double)b;
            L3 e = oPoint(c, x), q = oPoint(g, s);
            CHECK(dist(e, q) <= tol + 1e-12L * scaleOf(c.ControlPoints) / (b - a), "piece " << i << " at " << s << " differs from the curve at " << x << " by " << (double)dist(e, q));
        }
        if (i) CHECK(dist(toL(Vec3(segs[i - 1].ControlPoints.back().head<3>())), toL(Vec3(g.ControlPoints.front().head<3>()))) <= tol, "pieces " << i - 1 << " and " << i << " do not share their joint");
    }
    return segs.size() > 1;
}

CASE(C21)
{
    Curve c = genCurve(r, 1, 4, 4, false, nullptr, r.chance(50));
    double sc0 = scaleOf(c.ControlPoints); if (sc0 > 20) for (auto& p : c.ControlPoints) p.head<3>() *= 20 / sc0;
    if (r.chance(20)) for (auto& p : c.ControlPoints) p.head<3>() += Vec3(40, -40, 40);   // a box away from the origin
    double eps = std::pow(10.0, -r.in(0, 4)); if (r.chance(10)) eps = 1e-9;
    for (auto& p : c.ControlPoints) p[3] = std::min(5.0, std::max(0.2, p[3]));
    describe("curve", c); DESC("GetBoundingBox(" << eps << ")");
    Curve before = c; BoundingBox b = c.GetBoundingBox(eps);
    CHECK(same(c, before), "the curve was modified");
    double lim = std::max(eps, 1e-6) * 1.0001 + 1e-9;
    auto rs = runs(c.Knots.Values());
    double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300}; const int N = 200;
    for (size_t i = 0; i + 1 < rs.size(); ++i)
    {
        double a = rs[i].first, h = (rs[i + 1].first - a) / N;
        vector<L3> v; for (int k = 0; k <= N; ++k) v.push_back(oPoint(c, std::min(1.0, a + h * k)));
        for (int k = 0; k <= N; ++k) for (int d = 0; d < 3; ++d)
        {
            double q = (double)v[k][d];
            CHECK(q >= b.Min[d] - lim && q <= b.Max[d] + lim, "point at " << a + h * k << " (coordinate " << d << " = " << q << ") lies outside the box [" << b.Min[d] << "," << b.Max[d] << "] by more than the precision");
            lo[d] = std::min(lo[d], q); hi[d] = std::max(hi[d], q);
            for (int sg = -1; sg <= 1; sg += 2)   // local extremum: refine
                if ((k == 0 || sg * v[k][d] >= sg * v[k - 1][d]) && (k == N || sg * v[k][d] >= sg * v[k + 1][d]) && !((k == 0 || v[k][d] == v[k - 1][d]) && (k == N || v[k][d] == v[k + 1][d])))
                    {
                        double l = std::max(a, a + h * (k - 1)), u = std::min(rs[i + 1].first, a + h * (k + 1));
                        for (int it = 0; it < 25; ++it) { double m1 = l + (u - l) * 0.382, m2 = l + (u - l) * 0.618; if (sg * oPoint(c, m1)[d] < sg * oPoint(c, m2)[d]) l = m1; else u = m2; }
                        double q2 = (double)oPoint(c, (l + u) / 2)[d]; lo[d] = std::min(lo[d], q2); hi[d] = std::max(hi[d], q2);
                    }
        }
    }
    double sc = scaleOf(c.ControlPoints);
    for (int d = 0; d < 3; ++d)
        CHECK(b.Min[d] >= lo[d] - 1e-6 * sc - 1e-9 && b.Max[d] <= hi[d] + 1e-6 * sc + 1e-9, "box [" << b.Min[d] << "," << b.Max[d] << "] extends beyond the extent [" << lo[d] << "," << hi[d] << "] of coordinate " << d);
    return true;
}

// ---- parameter search -----------------------------------------------------------------------
CASE(C22)
{
    int what = r.in(0, 4);
    double eps = r.chance(15) ? 0.0 : std::pow(10.0, -r.in(2, 10)); double iters = r.chance(70) ? r.in(0, 40) : 512;
    auto inside = [&](double u, const char* n) { CHECK(u >= 0 && u <= 1, n << " returned " << u); };
    auto target = [&](double sc) { return Vec3(r.uni(-2, 2) * sc, r.uni(-2, 2) * sc, r.uni(-2, 2) * sc); };
    if (what <= 1)
    {
        bool straight = r.chance(35);
        Curve c;
        if (straight) { GeomSegment g = GeomSegment::Make(Vec3(r.in(-9, 9), r.in(-9, 9), r.in(-9, 9)), Vec3(r.in(-9, 9), r.in(10, 20), r.in(-9, 9))); g.Degree = r.in(1, 3); g.ControlPointCount = g.Degree + 1 + (r.chance(50) ? 0 : g.Degree == 1 ? r.in(0, 4) : 0); c = g.GetCurve(); eps = std::pow(10.0, -r.in(4, 9)); iters = 512; }
        else c = genCurve(r, 1, 4, 4, false);
        double t = genParam(r, c.Knots.Values()), init = genParam(r, c.Knots.Values());
        bool on = straight || r.chance(50), exact = r.chance(30);
        if (exact) { on = true; init = t; }
        Vec3 q = on ? c.Evaluate(t) : target(scaleOf(c.ControlPoints) + 1);
        describe("curve", c); DESC("target=(" << q.transpose() << ") t=" << t << " on=" << on << " init=" << init << " epsilon=" << eps << " iterations=" << iters << (what ? " BinarySearchParameter" : " SearchParameter"));
        double u = what == 0 ? c.SearchParameter(q, init, eps, iters) : c.BinarySearchParameter(q, eps, (int)iters);
        inside(u, "search");
        double sc = scaleOf(c.ControlPoints) + 1;
        if (what == 0 && exact) CHECK(u == init || (c.Evaluate(u) - q).norm() <= 1e-12 * sc, "started on the target at " << init << " but returned " << u);
        if (straight) CHECK((c.Evaluate(u) - q).norm() <= 100 * sc * eps + 1e-7, "target on a straight segment at " << t << ", search returned " << u << " with residual " << (c.Evaluate(u) - q).norm());
        return on;
    }
    bool rect = r.chance(35);
    Surface s;
    if (rect)
    {
        Vec3 o(r.in(-5, 5), r.in(-5, 5), r.in(-5, 5)); double w = r.in(1, 6), h = r.in(1, 6);
        Vec3 a(w, 0, 0), b(0, h, 0); if (r.chance(50)) { a = Vec3(0, 0, w); b = Vec3(h, 0, 0); }
        GeomRect g = GeomRect::Make(o, o + a, o + b, o + a + b); g.DegreeU = r.in(1, 2); g.DegreeV = r.in(1, 2); g.ControlPointCountU = g.DegreeU + 1; g.ControlPointCountV = g.DegreeV + 1;
        s = g.GetSurface(); eps = std::pow(10.0, -r.in(4, 8)); iters = 512;
    }
    else s = genSurface(r, 1, 3, 3, false);
    double tu = genParam(r, s.KnotsU.Values()), tv = genParam(r, s.KnotsV.Values()), iu = genParam(r, s.KnotsU.Values()), iv = genParam(r, s.KnotsV.Values());
    bool on = rect || r.chance(50), exact = r.chance(30); if (exact) { on = true; iu = tu; iv = tv; }
    double sc = scaleOf(s.ControlPoints.Values) + 1;
    Vec3 q = on ? s.Evaluate(tu, tv) : target(sc);
    int dir = r.in(0, 1); double cst = on && r.chance(90) ? (dir == 0 ? tu : tv) : genParam(r, s.KnotsU.Values());
    bool hit = on && cst == (dir == 0 ? tu : tv);
    describe("surface", s); DESC("target=(" << q.transpose() << ") at=(" << tu << "," << tv << ") on=" << on << " init=(" << iu << "," << iv << ") epsilon=" << eps << " iterations=" << iters << " direction=" << dir << " constant=" << cst << " search=" << (what == 2 ? "SearchParameter" : what == 3 ? "SearchParameterOn" : "BinarySearchParameterOn"));
    std::pair<double, double> g;
    if (what == 2) g = s.SearchParameter(q, iu, iv, eps, iters);
    else if (what == 3) g = s.SearchParameterOn(q, dir, cst, dir == 0 ? iv : iu, eps, iters);
    else g = s.BinarySearchParameterOn(q, dir, cst, eps, iters);
    inside(g.first, "search (u)"); inside(g.second, "search (v)");
    if (what != 2) CHECK((dir == 0 ? g.first : g.second) == cst, "the fixed parameter came back as " << (dir == 0 ? g.first : g.second));
    if (exact && what == 2) CHECK((g.first == iu && g.second == iv) || (s.Evaluate(g.first, g.second) - q).norm() <= 1e-12 * sc, "started on the target but returned (" << g.first << "," << g.second << ")");
    if (exact && what == 3 && hit) CHECK((dir == 0 ? g.second == iv : g.first == iu) || (s.Evaluate(g.first, g.second) - q).norm() <= 1e-12 * sc, "started on the target but returned (" << g.first << "," << g.second << ")");
    if (rect && (what == 2 || hit)) CHECK((s.Evaluate(g.first, g.second) - q).norm() <= 100 * sc * eps + 1e-7, "target on a flat rectangle at (" << tu << "," << tv << "), search returned (" << g.first << "," << g.second << ") with residual " << (s.Evaluate(g.first, g.second) - q).norm());
    return on;
}

// ---- builders, transforms, alignment --------------------------------------------------------
CASE(C23)
{
    auto pt = [&] { return Vec3(r.uni(-10, 10), r.in(-10, 10), r.uni(-1, 1) * (r.chance(10) ? 1e5 : 1)); };
    if (r.chance(40))
    {
        GeomSegment g = GeomSegment::Make(pt(), pt()); g.Degree = r.in(1, 5); g.ControlPointCount = g.Degree + 1 + r.in(0, 6);
        DESC("GeomSegment degree " << g.Degree << " count " << g.ControlPointCount << " from (" << g.LeftPoint.transpose() << ") to (" << g.RightPoint.transpose() << ")");
        Curve c = g.GetCurve(); checkValid(c, "segment");
        CHECK(c.Degree == g.Degree && (int)c.ControlPoints.size() == g.ControlPointCount, "degree " << c.Degree << ", " << c.ControlPoints.size() << " points");
        double sc = g.LeftPoint.norm() + g.RightPoint.norm() + 1;
        for (int i = 0; i < g.ControlPointCount; ++i)
        {
            double f = (double)i / (g.ControlPointCount - 1); Vec3 e = g.LeftPoint * (1 - f) + g.RightPoint * f;
            CHECK(c.ControlPoints[i][3] == 1 && (Vec3(c.ControlPoints[i].head<3>()) - e).norm() <= 1e-12 * sc, "control point " << i << " is (" << c.ControlPoints[i].transpose() << ")");
        }
        CHECK((c.Evaluate(0) - g.LeftPoint).norm() <= 1e-12 * sc && (c.Evaluate(1) - g.RightPoint).norm() <= 1e-12 * sc, "ends");
        return true;
    }
    GeomRect g = GeomRect::Make(pt(), pt(), pt(), pt());
    if (r.chance(40)) g.RightTopPoint = g.RightBottomPoint + g.LeftTopPoint - g.LeftBottomPoint;
    g.DegreeU = r.in(1, 4); g.DegreeV = r.in(1, 4); g.ControlPointCountU = g.DegreeU + 1 + r.in(0, 4); g.ControlPointCountV = g.DegreeV + 1 + r.in(0, 4);
    DESC("GeomRect degrees " << g.DegreeU << "," << g.DegreeV << " counts " << g.ControlPointCountU << "," << g.ControlPointCountV << " corners (" << g.LeftBottomPoint.transpose() << ") (" << g.RightBottomPoint.transpose() << ") (" << g.LeftTopPoint.transpose() << ") (" << g.RightTopPoint.transpose() << ")");
    Surface s = g.GetSurface(); checkValid(s, "rectangle");
    CHECK(s.DegreeU == g.DegreeU && s.DegreeV == g.DegreeV && s.ControlPoints.UCount == g.ControlPointCountU && s.ControlPoints.VCount == g.ControlPointCountV, "degrees or counts");
    double sc = g.LeftBottomPoint.norm() + g.RightBottomPoint.norm() + g.LeftTopPoint.norm() + g.RightTopPoint.norm() + 1;
    for (int i = 0; i < g.ControlPointCountU; ++i)
        for (int j = 0; j < g.ControlPointCountV; ++j)
        {
            double a = (double)i / (g.ControlPointCountU - 1), b = (double)j / (g.ControlPointCountV - 1);
            Vec3 e = (g.LeftBottomPoint * (1 - a) + g.RightBottomPoint * a) * (1 - b) + (g.LeftTopPoint * (1 - a) + g.RightTopPoint * a) * b;
            const Vec4& P = s.ControlPoints.Values[(size_t)j * g.ControlPointCountU + i];
            CHECK(P[3] == 1 && (Vec3(P.head<3>()) - e).norm() <= 1e-12 * sc, "control point (" << i << "," << j << ") is (" << P.transpose() << ") instead of (" << e.transpose() << ")");
        }
    CHECK((s.Evaluate(0, 0) - g.LeftBottomPoint).norm() <= 1e-12 * sc && (s.Evaluate(1, 0) - g.RightBottomPoint).norm() <= 1e-12 * sc && (s.Evaluate(0, 1) - g.LeftTopPoint).norm() <= 1e-12 * sc && (s.Evaluate(1, 1) - g.RightTopPoint).norm() <= 1e-12 * sc, "corners");
    return true;
}

CASE(C24)
{
    Mat3x3 R; int k = r.in(0, 3);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = k == 0 ? r.in(-3, 3) : r.uni(-2, 2);
    if (k == 3) R = Mat3x3::Identity() * r.uni(-2, 2);
    auto ap = [&](const Vec4& p) { L3 o; ld v[3]; for (int i = 0; i < 3; ++i) v[i] = (ld)R(i, 0) * p[0] + (ld)R(i, 1) * p[1] + (ld)R(i, 2) * p[2]; return L3{v[0], v[1], v[2]}; };
    auto cmp = [&](const vector<Vec4>& a, const vector<Vec4>& b)
    {
        CHECK(a.size() == b.size(), "control point count"); double tol = 1e-12 * (scaleOf(a) * 6 + 1);
        for (size_t i = 0; i < a.size(); ++i) CHECK(a[i][3] == b[i][3] && dist(ap(a[i]), toL(Vec3(b[i].head<3>()))) <= tol, "control point " << i << " became (" << b[i].transpose() << ")");
    };
    DESC("R=" << R);
    if (r.chance(50))
    {
        Curve c = genCurve(r, 1, 4, 4, true); describe("curve", c); Curve before = c, a = c.Transform(R);
        CHECK(same(c, before), "the original was modified");
        CHECK(a.Degree == c.Degree && a.Knots.Values() == c.Knots.Values(), "degree or knots changed");
        cmp(c.ControlPoints, a.ControlPoints);
        double x = genParam(r, c.Knots.Values()); L3 p = oPoint(c, x); Vec4 v((double)p.x, (double)p.y, (double)p.z, 1);
        CHECK(dist(ap(v), oPoint(a, x)) <= 1e-9 * (scaleOf(c.ControlPoints) + 1), "point at " << x);
    }
    else
    {
        Surface c = genSurface(r, 1, 3, 3, true); describe("surface", c); Surface before = c, a = c.Transform(R);
        CHECK(same(c, before), "the original was modified");
        CHECK(a.DegreeU == c.DegreeU && a.DegreeV == c.DegreeV && a.KnotsU.Values() == c.KnotsU.Values() && a.KnotsV.Values() == c.KnotsV.Values() && a.ControlPoints.UCount == c.ControlPoints.UCount && a.ControlPoints.VCount == c.ControlPoints.VCount, "degrees, knots or grid dimensions changed");
        cmp(c.ControlPoints.Values, a.ControlPoints.Values);
    }
    return true;
}

static vector<double> flip(const vector<double>& U) { vector<double> o; for (size_t i = U.size(); i-- > 0;) o.push_back(1.0 - U[i]); return o; }
CASE(C25)
{
    Surface s = genSurface(r, 1, 3, 3, true);
    bool aligned = r.chance(65); int au = r.in(0, 2), av = (au + r.in(1, 2)) % 3; int su = r.chance(50) ? 1 : -1, sv = r.chance(50) ? 1 : -1;
    int nu = s.ControlPoints.UCount, nv = s.ControlPoints.VCount;
    if (aligned)
    {   // edges follow axis au in u and av in v
        double lu = r.uni(1, 20), lv = r.uni(1, 20), off[3] = {r.uni(-30, 30), r.uni(-30, 30), r.uni(-30, 30)};
        int nn = 3 - au - av; double bump = r.chance(50) ? 0 : r.uni(0, 0.3);
        for (int i = 0; i < nu; ++i) for (int j = 0; j < nv; ++j)
        {
            Vec4& P = s.ControlPoints.Values[(size_t)j * nu + i];
            P[au] = off[au] + su * lu * i / (nu - 1); P[av] = off[av] + sv * lv * j / (nv - 1);
            bool corner = (i == 0 || i == nu - 1) && (j == 0 || j == nv - 1);
            P[nn] = off[nn] + (corner ? 0 : bump * r.uni(-1, 1));
        }
        if (r.chance(20))
        {   // triangle-like: one edge collapses
            int e = r.in(0, 3);
            for (int t = 0; t < (e < 2 ? nu : nv); ++t)
            { Vec4& P = s.ControlPoints.Values[e < 2 ? (size_t)(e == 0 ? 0 : nv - 1) * nu + t : (size_t)t * nu + (e == 2 ? 0 : nu - 1)]; for (int d = 0; d < 3; ++d) P[d] = off[d]; }
            aligned = false;
        }
    }
    int ru = r.in(0, 2), rv = (ru + r.in(1, 2)) % 3;
    if (aligned && r.chance(80)) { if (r.chance(50)) { ru = au; rv = av; } else { ru = av; rv = au; } }
    describe("surface", s); DESC("AlignParameterDomain(" << ru << "," << rv << ") aligned=" << aligned);
    Surface before = s;
    Surface a = s.AlignParameterDomain((Surface::AlignAxis)ru, (Surface::AlignAxis)rv);
    CHECK(same(s, before), "the original was modified");
    CHECK((size_t)a.ControlPoints.UCount * a.ControlPoints.VCount == a.ControlPoints.Values.size(), "grid inconsistent");
    bool found = false; int fs = 0;
    for (int m = 0; m < 8 && !found; ++m)
    {
        bool sw = m & 1, fu = m & 2, fv = m & 4; Surface e = s;
        if (sw)
        {
            e.DegreeU = s.DegreeV; e.DegreeV = s.DegreeU; e.KnotsU = s.KnotsV; e.KnotsV = s.KnotsU; e.ControlPoints.UCount = nv; e.ControlPoints.VCount = nu;
            for (int i = 0; i < nv; ++i) for (int j = 0; j < nu; ++j) e.ControlPoints.Values[(size_t)j * nv + i] = s.ControlPoints.Values[(size_t)i * nu + j];
        }
        int eu = e.ControlPoints.UCount, ev = e.ControlPoints.VCount; auto V = e.ControlPoints.Values;
        if (fu) e.KnotsU.Values() = flip(e.KnotsU.Values());
        if (fv) e.KnotsV.Values() = flip(e.KnotsV.Values());
        for (int i = 0; i < eu; ++i) for (int j = 0; j < ev; ++j) e.ControlPoints.Values[(size_t)j * eu + i] = V[(size_t)(fv ? ev - 1 - j : j) * eu + (fu ? eu - 1 - i : i)];
        if (same(a, e)) { found = true; fs = m; }
    }
    CHECK(found, "the result is not an exchange/reversal of the original");
    (void)fs;
    if (aligned && ((ru == au && rv == av) || (ru == av && rv == au)))
    {
        int eu = a.ControlPoints.UCount, ev = a.ControlPoints.VCount;
        Vec3 o = a.ControlPoints.Values[0].head<3>(), pu = a.ControlPoints.Values[eu - 1].head<3>(), pv = a.ControlPoints.Values[(size_t)(ev - 1) * eu].head<3>();
        CHECK(pu[ru] > o[ru], "u does not run along +axis " << ru);
        CHECK(pv[rv] > o[rv], "v does not run along +axis " << rv);
    }
    return aligned;
}
