#include "common.hpp"
#include <fstream>
#include <unistd.h>

static double anyDouble(Rng& r, bool finiteNormal)
{
    for (;;)
    {
        double d; int k = r.in(0, 9);
        if (k < 3) { uint64_t b = r.next(); std::memcpy(&d, &b, 8); }
        else if (k == 3) d = 0.0; else if (k == 4) d = -0.0;
        else if (k == 5) d = (r.chance(50) ? 1 : -1) * std::pow(10.0, r.in(-300, 300));
        else if (k == 6) d = r.in(-1000, 1000);
        else if (k == 7) { static const double s[] = {1.7976931348623157e308, 2.2250738585072014e-308, 0.1, 1.0 / 3, 5e-324, INFINITY, -INFINITY, NAN, 1e-17, 123456789.123456789}; d = s[r.in(0, 9)]; }
        else d = r.uni(-1, 1);
        if (finiteNormal && !(d == 0 || std::isnormal(d))) continue;
        return d;
    }
}
static Curve anyCurve(Rng& r, bool fin)
{
    Curve c; c.Degree = r.chance(70) ? r.in(0, 5) : (int)r.next();
    int nk = r.chance(10) ? 0 : r.in(0, 12), np = r.chance(10) ? 0 : r.in(0, 8);
    for (int i = 0; i < nk; ++i) c.Knots.Values().push_back(anyDouble(r, fin));
    for (int i = 0; i < np; ++i) { Vec4 p; for (int d = 0; d < 4; ++d) p[d] = anyDouble(r, fin); c.ControlPoints.push_back(p); }
    return c;
}
static Surface anySurface(Rng& r, bool fin)
{
    Surface s; s.DegreeU = r.chance(70) ? r.in(0, 5) : (int)r.next(); s.DegreeV = r.chance(70) ? r.in(0, 5) : (int)r.next();
    int a = r.chance(10) ? 0 : r.in(0, 9), b = r.chance(10) ? 0 : r.in(0, 9);
    for (int i = 0; i < a; ++i) s.KnotsU.Values().push_back(anyDouble(r, fin));
    for (int i = 0; i < b; ++i) s.KnotsV.Values().push_back(anyDouble(r, fin));
    s.ControlPoints.UCount = r.in(1, 5); s.ControlPoints.VCount = r.in(1, 5);
    for (int i = 0; i < s.ControlPoints.UCount * s.ControlPoints.VCount; ++i) { Vec4 p; for (int d = 0; d < 4; ++d) p[d] = anyDouble(r, fin); s.ControlPoints.Values.push_back(p); }
    return s;
}
template <class T> static void dirty(Rng& r, T& t, const T& other) { if (r.chance(60)) t = other; }
static string tmpName() { return g_tmpdir + "/io." + std::to_string(getpid()); }

template <class T> static void roundTrip(Rng& r, const T& in, T out, bool bin)
{
    bool file = r.chance(10);
    DESC((bin ? "binary" : "text") << (file ? " file" : " stream") << " round trip");
    T before = in;
    if (file)
    {
        string f = tmpName();
        in.SaveToFile(f, bin); T& ref = out.LoadFromFile(f); unlink(f.c_str());
        CHECK(&ref == &out, "LoadFromFile returned another object");
    }
    else
    {
        std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
        if (!bin && r.chance(30)) { ss << std::fixed; ss.precision(3); }
        in.SaveToFile(ss, bin);
        string bytes = ss.str(), tail = "TAIL";
        std::stringstream is(bytes + (bin ? tail : ""), std::ios::in | std::ios::binary);
        T& ref = out.LoadFromFile(is);
        CHECK(&ref == &out, "LoadFromFile returned another object");
        if (bin) { string rest((std::istreambuf_iterator<char>(is)), {}); CHECK(rest == tail, "the loader consumed " << (long)bytes.size() + 4 - (long)rest.size() << " of " << bytes.size() << " bytes"); }
    }
    CHECK(same(in, before), "saving modified the object");
    if (!same(in, out)) { describe("saved", in); describe("loaded", out); FAIL("the loaded object differs from the saved one"); }
}
CASE(C15)
{
    if (r.chance(50)) { Curve c = anyCurve(r, false), o; describe("curve", c); dirty(r, o, anyCurve(r, false)); roundTrip(r, c, o, true); }
    else { Surface c = anySurface(r, false), o; describe("surface", c); dirty(r, o, anySurface(r, false)); roundTrip(r, c, o, true); }
    return true;
}
CASE(C16)
{
    if (r.chance(50)) { Curve c = anyCurve(r, true), o; describe("curve", c); dirty(r, o, anyCurve(r, true)); roundTrip(r, c, o, false); }
    else { Surface c = anySurface(r, true), o; describe("surface", c); dirty(r, o, anySurface(r, true)); roundTrip(r, c, o, false); }
    return true;
}

static string saved(Rng& r, bool surf, bool bin, int* npts = nullptr)
{
    std::ostringstream os;
    if (surf) { Surface s = anySurface(r, true); if (npts) *npts = s.ControlPoints.UCount * s.ControlPoints.VCount; s.SaveToFile(os, bin); }
    else { Curve c = anyCurve(r, true); if (c.ControlPoints.empty()) c.ControlPoints.push_back(Vec4(1, 2, 3, 1)); if (c.Knots.Values().empty()) c.Knots.Values().push_back(0.5); if (npts) *npts = (int)c.ControlPoints.size(); c.SaveToFile(os, bin); }
    return os.str();
}
static string replaceOnce(string s, const string& a, const string& b) { auto p = s.find(a); CHECK(p != string::npos, "harness: " << a << " not in the saved text"); return s.replace(p, a.size(), b); }
CASE(C17)
{
    bool surf = r.chance(50), bin = r.chance(40);
    int np = 0; string f = saved(r, surf, bin, &np);
    if (surf && !bin) { }
    int kind = r.in(0, 11); bool must = true; string why;
    size_t nl = f.find('\n'); string head = f.substr(0, nl), body = f.substr(nl);
    string type = surf ? "SURFACE" : "CURVE";
    switch (kind)
    {
    case 0: { static const char* m[] = {"LIBNURB", "libnurbs", "LIBNURBSX", "", "XLIBNURBS", "LIBNURBT"}; f = string(m[r.in(0, 5)]) + head.substr(8) + body; why = "wrong magic word"; break; }
    case 1: { static const char* m[] = {"TXTX", "bin", "B", "XML", "TX", "BINARY"}; f = "LIBNURBS " + string(m[r.in(0, 5)]) + " " + type + body; why = "unknown mode"; break; }
    case 2: f = "LIBNURBS " + string(bin ? "BIN" : "TXT") + " " + (surf ? "CURVE" : "SURFACE") + body; why = "other object type"; break;
    case 3: { static const char* m[] = {"", "CURVES", "SURFACES", "curve", "surface", "POINT"}; f = "LIBNURBS " + string(bin ? "BIN" : "TXT") + " " + m[r.in(0, 5)] + body; why = "bad object type"; break; }
    case 4: case 5:
        if (bin) { size_t at = nl + 1 + r.next() % (f.size() - nl - 1); f = f.substr(0, at); why = "truncated binary payload"; }
        else if (kind == 4)
        {
            static const char* cu[] = {"*Degree:", "*Knots:", "*ControlPoints:"}; static const char* su[] = {"*DegreeU:", "*DegreeV:", "*KnotsU:", "*KnotsV:", "*ControlPoints:"};
            string k = surf ? su[r.in(0, 4)] : cu[r.in(0, 2)]; static const char* bad[] = {"*Foo:", "*degree:", "*Knot:", "*Points:", "*DegreeW:", "*KnotsW:"};
            f = replaceOnce(f, k, bad[r.in(0, 5)]); why = "unknown section";
        }
        else
        {   // unparsable value
            static const char* bad[] = {"abc", "--1", "x1", "?", "e5"};
            string b = bad[r.in(0, 4)];
            vector<string> lines; { std::stringstream ss(f); string l; while (std::getline(ss, l)) lines.push_back(l); }
            vector<size_t> cand; for (size_t i = 1; i < lines.size(); ++i) if (lines[i].find_first_of("0123456789") != string::npos) cand.push_back(i);
            size_t li = cand[r.in(0, (int)cand.size() - 1)]; string& l = lines[li];
            if (l[0] == '*') l = l.substr(0, l.find(':') + 1) + " " + b;
            else { size_t p = l.find_first_of("-0123456789"); size_t e = l.find_first_of(" ,", p); l = l.substr(0, p) + b + (e == string::npos ? "" : l.substr(e)); }
            f.clear(); for (auto& q : lines) f += q + "\n"; why = "unparsable value";
        }
        break;
    case 6:
        if (!bin)
        {   // a control point with too few numbers
            vector<string> lines; { std::stringstream ss(f); string l; while (std::getline(ss, l)) lines.push_back(l); }
            size_t first = 0; for (size_t i = 0; i < lines.size(); ++i) if (lines[i] == "*ControlPoints:") first = i + 1 + (surf ? 1 : 0);
            string& l = lines[first + r.in(0, (int)(lines.size() - first) - 1)];
            string t = l; if (!t.empty() && t.back() == ',') t.pop_back();
            t = t.substr(0, t.rfind(' ')); if (r.chance(30)) t = t.substr(0, t.rfind(' '));
            l = t + (surf ? "" : ","); f.clear(); for (auto& q : lines) f += q + "\n"; why = "control point with missing numbers";
        }
        else { f = head + "\n"; why = "no payload"; }
        break;
    case 7:
        if (surf && !bin)
        {   // stated grid does not match the number of points
            vector<string> lines; { std::stringstream ss(f); string l; while (std::getline(ss, l)) lines.push_back(l); }
            if (r.chance(50)) lines.pop_back();
            else { size_t i = 0; while (lines[i] != "*ControlPoints:") ++i; static const char* d[] = {"0 0", "-1 -1", "70000 70000", "1", "7 9", "65536 65536", "2147483647 2", "-2 -3", "a b"}; lines[i + 1] = d[r.in(0, 8)]; if (np == 63) return false; }
            f.clear(); for (auto& q : lines) f += q + "\n"; why = "grid dimensions do not match";
        }
        else if (bin)
        {   // absurd count
            int v[] = {-1, 2147483647, 1 << 30, -2147483647 - 1}; int x = v[r.in(0, 3)]; size_t at = nl + 1 + (surf ? 8 : 4);
            std::memcpy(&f[at], &x, 4); why = "absurd knot count";
        }
        else { must = false; f += "garbage\n"; if (r.chance(50)) f += "*Degree: 3\n"; }
        break;
    case 8: if (surf && bin) { int x = r.chance(50) ? 0 : -r.in(1, 5); size_t at = f.size() - (size_t)np * 32 - (r.chance(50) ? 4 : 8); std::memcpy(&f[at], &x, 4); why = "grid dimension not positive"; } else must = false; break;
    default: must = false;
    }
    if (!must && kind != 7)
    {
        int n = r.in(1, 6);
        for (int i = 0; i < n && !f.empty(); ++i)
        {
            size_t at = r.next() % f.size(); int w = r.in(0, 6);
            if (w == 0) f[at] = (char)r.next(); else if (w == 1) f.erase(at, r.in(1, 9)); else if (w == 2) f.insert(at, f.substr(r.next() % f.size(), r.in(1, 40)));
            else if (w == 3) f = f.substr(0, at); else if (w == 4) f[at] ^= (char)(1 << r.in(0, 7)); else if (w == 5) f.insert(at, 1, "*:,\n 0-"[r.in(0, 6)]); else f.insert(at, "\n");
        }
    }
    if (g_verbose) { g_desc << (surf ? "Surface" : "Curve") << "::LoadFromFile of " << f.size() << " bytes (" << (must ? why : "mutated") << "): "; for (unsigned char ch : f) { if (ch >= 32 && ch < 127 && ch != '\\') g_desc << ch; else { char b[8]; snprintf(b, 8, "\\x%02x", ch); g_desc << b; } } g_desc << std::endl; }
    std::stringstream is(f, std::ios::in | std::ios::binary);
    Surface s; Curve c; bool threw = false, rt = false;
    if (r.chance(30)) { s = anySurface(r, true); c = anyCurve(r, true); }
    try { if (surf) s.LoadFromFile(is); else c.LoadFromFile(is); }
    catch (const std::runtime_error&) { threw = rt = true; }
    catch (const std::exception&) { threw = true; }
    if (must) CHECK(rt, (threw ? "not rejected with std::runtime_error: " : "accepted: ") << why);
    if (!threw && surf)
    {
        auto& g = s.ControlPoints;
        CHECK(g.UCount >= 0 && g.VCount >= 0 && (uint64_t)g.UCount * (uint64_t)g.VCount == g.Values.size(), "loaded surface has grid " << g.UCount << "x" << g.VCount << " and " << g.Values.size() << " points");
    }
    return true;
}
