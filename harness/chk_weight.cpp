// C06 kernels, C07 distances, C08 value semantics of the weighting scheme.
#include "common.h"
#include "ref.h"
#include "scen.h"
#include <algorithm>
using std::string; using std::vector; using namespace gwm; using namespace arma;
namespace {
const double PI = 3.14159265358979323846;
string vstr(const vec& v) { string s; for (double x : v) s += fmt("%.6g ", x); return s; }
// ---- C06 -----------------------------------------------------------------------------------------
bool checkWeights(const vec& d, double bw, bool ad, int kern, Res& r, double scale) {
    vec dd = d * scale; double b = bw;
    if (ad) { std::vector<double> s(dd.begin(), dd.end()); std::sort(s.begin(), s.end()); size_t n = s.size(); if (bw >= n) b = s[n - 1]; else { size_t q = (size_t)bw; b = s[q - 1] + (s[q] - s[q - 1]) * (bw - q); } if (!(b > 0)) { r.ctr["zero_bandwidth"]++; return true; } }
    else bw *= scale;
    BandwidthWeight w(bw, ad, (BandwidthWeight::KernelFunctionType)kern); vec got; string ex; try { got = w.weight(dd); } catch (const std::exception& e) { ex = e.what(); }
    vec want = ref::kernel(dd, bw, ad, kern); r.execs++; r.validated++; r.transitions += dd.n_elem;
    auto bad = [&](const char* k, const string& what) { r.bad(k, what + fmt(" (kernel %d, %s bandwidth %g, distances ", kern, ad ? "adaptive" : "fixed", bw) + vstr(dd) + ")"); return false; };
    if (!ex.empty()) return bad("throws", "exception " + ex); if (got.n_elem != dd.n_elem) return bad("size", fmt("%d weights", (int)got.n_elem));
    bool frac = ad && bw != std::floor(bw);
    for (uword i = 0; i < dd.n_elem; i++) {
        if (kern == 4 && frac && std::fabs(dd(i) - b) < 1e-9 * b) continue;
        if (!(std::fabs(got(i) - want(i)) <= 1e-10 * (1 + want(i)))) return bad("weight", fmt("weight %d is %.12g expected %.12g", (int)i, got(i), want(i)));
        if (!(got(i) >= 0 && got(i) <= 1)) return bad("unit", fmt("weight %d is %.12g", (int)i, got(i)));
        for (uword j = 0; j < dd.n_elem; j++) { if (dd(i) < dd(j) && got(i) < got(j)) return bad("order", "a farther observation weighs more"); if (dd(i) == dd(j) && got(i) != got(j)) return bad("equal", "equally distant observations weigh differently"); }
    }
    return true;
}
void caseKernel(int n, int kern, const vector<double>& al, bool fine, Res& r) {
    vector<int> ix(n, 0); std::set<uint64_t> seen;
    while (true) {
        vec d(n); for (int i = 0; i < n; i++) d(i) = al[ix[i]];
        for (double sc : {1.0, 1e-4, 1e5}) {
            for (double bw = 1; bw <= n + 2; bw += fine ? 0.25 : 0.5) if (!checkWeights(d, bw, true, kern, r, sc)) return;
            for (double m : {10.0, 250.0}) if (!checkWeights(d, n * m, true, kern, r, sc)) return;
            for (double bw : {0.3, 0.5, 1.0, 1.5, 1.7, 2.0, 4.0, 9.0, 1e6}) if (!checkWeights(d, bw, false, kern, r, sc)) return;
        }
        r.states++; int p = 0; while (p < n && ++ix[p] == (int)al.size()) ix[p++] = 0; if (p == n) break;
    }
    r.distinct += r.states; r.samples.push_back(fmt("kernel %d, all %llu distance vectors of length %d", kern, (unsigned long long)r.states, n));
}
// ---- C07 -----------------------------------------------------------------------------------------
struct Pts { mat fp, dp; vec ft, dt; };
mat points(const string& set) {
    if (set == "plane") return mat{{0, 0}, {3, 4}, {1, 1}, {-2, 5}, {1, 1}, {0.1, 0.3}, {7, -3}, {3, 0}, {0, 4}};
    if (set == "far") return mat{{512345.5, 181000.25}, {512345.5, 181001.25}, {530000, 175000}, {512345.5, 181000.25}, {529999, 176000.5}};
    if (set == "one") return mat{{2, 3}};
    if (set == "street") return mat{{114.3, 30.5}, {114.30005, 30.5}, {114.3, 30.50004}, {114.3000005, 30.5}, {114.3001, 30.5002}, {114.3, 30.5}, {114.3, 30.5000003}, {114.305, 30.5}, {114.3, 30.51}};
    if (set == "many") { mat m(131, 2); for (uword i = 0; i < 131; i++) { m(i, 0) = (double)((i * 37) % 131) * 0.75 + (i == 77 ? 900 : i == 101 ? -640 : 0); m(i, 1) = (double)((i * 53) % 127) * 0.5 + (i == 77 ? 700 : 0); } return m; }
    vector<double> lon{-180, -179.9, -120, -1e-3, 0, 0.5, 90, 179.5, 180}, lat{-88, -45, 0, 1e-3, 30, 60, 89}; mat m(lon.size() * lat.size(), 2); int t = 0; for (double a : lon) for (double b : lat) { m(t, 0) = a; m(t, 1) = b; t++; } return m;
}
vec timesFor(uword n, const string& w = "") { vec t(n); for (uword i = 0; i < n; i++) t(i) = (double)((i * 5 + 2) % 4); if (w == "close") t *= 1e-5; if (w == "years") t = t * 0.25 + 1990; if (w == "before") t = t - 1.5; if (w == "same") t.zeros(); return t; }
void caseDist(const KV& k, Res& r) {
    string set = k.s("set"); mat dp = points(set), fp = dp; bool st = k.s("dist") == "st"; vec dt = timesFor(dp.n_rows, k.s("tms")), ft = dt;
    if (k.i("focus")) { if (st) { fp = dp; for (uword i = 0; i < fp.n_rows; i++) { fp.row(i) = dp.row((i + 3) % dp.n_rows); ft(i) = dt((i + 1) % dp.n_rows) + (k.s("tms") == "close" ? 1e-5 : 1); } } else { fp = dp.rows(0, std::min<uword>(3, dp.n_rows) - 1); fp(0, 0) += 0.25; } }
    std::unique_ptr<Distance> d;
    string how = k.s("make", "ctor");
    if (how == "ctor") d = makeDistance(k);
    else if (how == "setter") {                    // configured through setters after construction with other values
        if (k.s("dist") == "mink") { auto* m = new MinkwoskiDistance(3.5, 1.1); m->setPoly(k.d("mp", 2)); m->setTheta(k.d("mth", 0)); d.reset(m); }
        else if (st) { auto q = makeDistance(k.with("lambda", "0.77")); static_cast<CRSSTDistance*>(q.get())->setLambda(k.d("lambda", 0.5)); d = std::move(q); }
        else { auto* c = new CRSDistance(k.s("dist") != "geo"); c->setGeographic(k.s("dist") == "geo"); d.reset(c); }
    } else { auto q = makeDistance(k); d.reset(q->clone()); }
    auto bad = [&](const char* key, const string& w) { r.bad(key, w); };
    bool t0 = false; try { d->distance(0); } catch (const std::exception&) { t0 = true; } if (!t0 && !st) { bad("unset", "distances are computed before any points were given"); return; }
    auto mk = [&](Distance* q) { if (st) q->makeParameter({fp, dp, ft, dt}); else q->makeParameter({fp, dp}); };
    mk(d.get()); if (how == "clone") { std::unique_ptr<Distance> c(d->clone()); d = std::move(c); } if (how == "remake") { if (st) d->makeParameter({mat(dp * 2), dp, dt, dt}); else d->makeParameter({mat(dp * 2), mat(dp * 3)}); mk(d.get()); }
    mat D(dp.n_rows, fp.n_rows); double mx = 0, mn = DBL_MAX; bool anti = false;
    for (uword f = 0; f < fp.n_rows; f++) {
        vec g = d->distance(f), w = ref::distRow(k, fp, f, dp, &ft, &dt); r.execs++; r.validated++; r.states++; r.transitions += g.n_elem;
        if (g.n_elem != dp.n_rows) { bad("size", fmt("%d distances for %d points", (int)g.n_elem, (int)dp.n_rows)); return; }
        for (uword j = 0; j < g.n_elem; j++) {
            bool geo = k.s("dist") == "geo" || k.i("geo"); 
            if (geo) { double x = std::fabs(fp(f, 0) - dp(j, 0)); if (x > 180) x = 360 - x; if (std::fabs(x - 180) < 0.6 && std::fabs(fp(f, 1) + dp(j, 1)) < 0.6) { anti = true; continue; } if (std::fabs(x) < 1e-9 && std::fabs(fp(f, 1) - dp(j, 1)) < 1e-9 && fp(f, 0) != dp(j, 0)) { if (!st && std::fabs(g(j)) > 1e-9) { bad("dateline", fmt("points on both sides of the date line are %.12g apart", g(j))); return; } continue; } }
            if (w(j) > 1e12) { if (!(g(j) >= 1e12)) { bad("future", fmt("a later observation is at distance %.12g", g(j))); return; } continue; }
            if (!(std::fabs(g(j) - w(j)) <= 1e-8 * (1 + w(j)))) { bad("distance", fmt("distance from (%.8g,%.8g) to (%.8g,%.8g) is %.12g expected %.12g", fp(f, 0), fp(f, 1), dp(j, 0), dp(j, 1), g(j), w(j))); return; }
            if (!(g(j) >= 0) && !st) { bad("negative", fmt("distance %.12g", g(j))); return; } if (!st && fp(f, 0) == dp(j, 0) && fp(f, 1) == dp(j, 1) && g(j) != 0) { bad("identity", fmt("a point is %.12g from itself", g(j))); return; }
        }
        D.col(f) = g; for (double v : g) { mx = std::max(mx, v); mn = std::min(mn, v); }
    }
    double gx = d->maxDistance(), gn = d->minDistance();
    if (!anti && (std::fabs(gx - mx) > 1e-9 * (1 + mx) || std::fabs(gn - mn) > 1e-9 * (1 + std::fabs(mn)))) { bad("extremes", fmt("extreme distances are reported as %.12g and %.12g, they are %.12g and %.12g", gn, gx, mn, mx)); return; }
    bool t1 = false; try { d->distance(fp.n_rows); } catch (const std::exception&) { t1 = true; } if (!t1) { bad("bounds", "a distance from a point that does not exist is computed"); return; }
    if (!st && !k.i("focus")) for (uword i = 0; i < dp.n_rows; i++) for (uword j = 0; j < dp.n_rows; j++) {
        if (std::isfinite(D(i, j)) && std::fabs(D(i, j) - D(j, i)) > 1e-8 * (1 + D(i, j))) { bad("symmetry", fmt("distance %d-%d is %.12g one way and %.12g the other", (int)i, (int)j, D(i, j), D(j, i))); return; }
        if (k.s("dist") != "geo") for (uword q = 0; q < dp.n_rows; q++) if (D(i, j) > D(i, q) + D(q, j) + 1e-8 * (1 + D(i, j))) { bad("triangle", fmt("detour %d-%d-%d is shorter", (int)i, (int)q, (int)j)); return; }
    }
    r.distinct++; r.samples.push_back(k.str() + fmt(" -> %d x %d distances", (int)fp.n_rows, (int)dp.n_rows));
}
// ---- C08 -----------------------------------------------------------------------------------------
struct MW { int st = 0; double bw = 0; bool ad = false; int kern = 0; };          // st: 0 none 1 set 2 unspecified (moved from)
struct MD { int st = 0; int kind = 0; int pts = -1; int alt = 0; };
struct MS { MW w; MD d; };
const int KINDS = 6;
KV kindKey(int i, int alt = 0) { static const char* s[] = {"dist=crs", "dist=geo", "dist=mink;mp=1;mth=0.4", "dist=od", "dist=st;lambda=0.4;angle=0.7", "dist=st;lambda=0.4"}, *t[] = {"dist=geo", "dist=crs", "dist=mink;mp=3;mth=0.4", "dist=od", "dist=st;lambda=0.8;angle=0.7", "dist=st;lambda=0.8"}; return KV(alt ? t[i] : s[i]); }
bool isST(int kind) { return kind >= 4; }
void tweak(Distance* d, int kind, int alt) { if (kind <= 1) static_cast<CRSDistance*>(d)->setGeographic((kind == 1) != (alt == 1)); else if (kind == 2) static_cast<MinkwoskiDistance*>(d)->setPoly(alt ? 3 : 1); else if (isST(kind)) static_cast<CRSSTDistance*>(d)->setLambda(alt ? 0.8 : 0.4); }
std::unique_ptr<Distance> kindObj(int i) { if (i == 3) return std::unique_ptr<Distance>(new OneDimDistance()); return makeDistance(kindKey(i)); }
mat spts(int p) { mat m(3 + p, 2); for (uword i = 0; i < m.n_rows; i++) { m(i, 0) = (i * 7 + p * 3) % 5 + 0.5 * p; m(i, 1) = (i * 3 + p) % 4; } return m; }
mat fpts(int p) { mat m = spts(p), f = m; if (p) for (uword i = 0; i < m.n_rows; i++) f.row(i) = m.row((i + 1) % m.n_rows); return f; }            // as many, but not the same points
void give(Distance* d, int kind, int p) { mat m = spts(p), f = fpts(p); vec t = timesFor(m.n_rows), x = m.col(0), y = f.col(0); if (isST(kind)) d->makeParameter({f, m, t, t}); else if (kind == 3) d->makeParameter({y, x}); else d->makeParameter({f, m}); }
vec dref(int kind, int p, uword f, int alt) { mat m = spts(p), fp = fpts(p); vec t = timesFor(m.n_rows); if (kind == 3) { vec v(m.n_rows); for (uword i = 0; i < v.n_elem; i++) v(i) = std::fabs(m(i, 0) - fp(f, 0)); return v; } return ref::distRow(kindKey(kind, alt), fp, f, m, &t, &t); }
struct Op { string name; std::function<void(vector<SpatialWeight>&, vector<MS>&)> f; std::function<bool(const vector<MS>&)> can; };
string verify(vector<SpatialWeight>& s, const vector<MS>& m) {
    for (size_t i = 0; i < s.size(); i++) {
        if (m[i].w.st != 2 && m[i].d.st != 2) if (s[i].isValid() != (m[i].w.st == 1 && m[i].d.st == 1)) return fmt("object %d: completeness is wrong", (int)i);
        BandwidthWeight* w = s[i].weight<BandwidthWeight>();
        if (m[i].w.st == 0 && w) return fmt("object %d has a weight it was not given", (int)i);
        if (m[i].w.st == 1) { if (!w) return fmt("object %d lost its weight", (int)i); if (w->bandwidth() != m[i].w.bw || w->adaptive() != m[i].w.ad || (int)w->kernel() != m[i].w.kern) return fmt("object %d has bandwidth %g/%d/%d expected %g/%d/%d", (int)i, w->bandwidth(), w->adaptive(), (int)w->kernel(), m[i].w.bw, m[i].w.ad, m[i].w.kern); }
        Distance* d = s[i].distance(); if (m[i].d.st == 0 && d) return fmt("object %d has a distance it was not given", (int)i);
        if (m[i].d.st == 1) {
            if (!d) return fmt("object %d lost its distance", (int)i); static const Distance::DistanceType ty[] = {Distance::DistanceType::CRSDistance, Distance::DistanceType::CRSDistance, Distance::DistanceType::MinkwoskiDistance, Distance::DistanceType::OneDimDistance, Distance::DistanceType::CRSSTDistance, Distance::DistanceType::CRSSTDistance};
            if (d->type() != ty[m[i].d.kind]) return fmt("object %d has another kind of distance", (int)i);
            if (m[i].d.pts < 0) { bool t = false; try { d->distance(0); } catch (const std::exception&) { t = true; } if (!t) return fmt("object %d computes distances without points", (int)i); }
            else for (uword f = 0; f < spts(m[i].d.pts).n_rows; f++) {
                vec want = dref(m[i].d.kind, m[i].d.pts, f, m[i].d.alt), got = d->distance(f); string q = diffMat(mat(want), mat(got), 1e-9); if (!q.empty()) return fmt("object %d: distances from point %d: ", (int)i, (int)f) + q;
                if (m[i].w.st == 1) { bool z = want.max() == 0; if (!z) { vec ww = s[i].weightVector(f); q = diffMat(mat(ref::kernel(want, m[i].w.bw, m[i].w.ad, m[i].w.kern)), mat(ww), 1e-9); if (!q.empty()) return fmt("object %d: weights at point %d: ", (int)i, (int)f) + q; } }
            }
        }
    }
    return "";
}
vector<Op> ops(int N) {
    vector<Op> o; auto ok = [](const MS& s) { return s.w.st != 2 && s.d.st != 2; };
    for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) {
        o.push_back({fmt("s%d=s%d", a, b), [=](vector<SpatialWeight>& s, vector<MS>& m) { s[a] = s[b]; m[a] = m[b]; }, [=](const vector<MS>& m) { return ok(m[b]); }});
        if (a != b) o.push_back({fmt("s%d=move(s%d)", a, b), [=](vector<SpatialWeight>& s, vector<MS>& m) { s[a] = std::move(s[b]); m[a] = m[b]; m[b].w.st = m[b].d.st = 2; }, [=](const vector<MS>& m) { return ok(m[b]); }});
        o.push_back({fmt("s%d=copy(s%d)", a, b), [=](vector<SpatialWeight>& s, vector<MS>& m) { SpatialWeight t(s[b]); SpatialWeight u(std::move(t)); s[a] = u; m[a] = m[b]; }, [=](const vector<MS>& m) { return ok(m[b]); }});
        o.push_back({fmt("s%d.setWeight(s%d.weight)", a, b), [=](vector<SpatialWeight>& s, vector<MS>& m) { s[a].setWeight(s[b].weight()); m[a].w = m[b].w; }, [=](const vector<MS>& m) { return m[b].w.st == 1; }});
        o.push_back({fmt("s%d.setWeight(*s%d.weight)", a, b), [=](vector<SpatialWeight>& s, vector<MS>& m) { s[a].setWeight(*s[b].weight()); m[a].w = m[b].w; }, [=](const vector<MS>& m) { return m[b].w.st == 1; }});
        o.push_back({fmt("s%d.setDistance(s%d.distance)", a, b), [=](vector<SpatialWeight>& s, vector<MS>& m) { s[a].setDistance(s[b].distance()); m[a].d = m[b].d; }, [=](const vector<MS>& m) { return m[b].d.st == 1; }});
        o.push_back({fmt("s%d.setDistance(*s%d.distance)", a, b), [=](vector<SpatialWeight>& s, vector<MS>& m) { s[a].setDistance(*s[b].distance()); m[a].d = m[b].d; }, [=](const vector<MS>& m) { return m[b].d.st == 1; }});
    }
    for (int a = 0; a < N; a++) {
        o.push_back({fmt("s%d.setWeight(temporary)", a), [=](vector<SpatialWeight>& s, vector<MS>& m) { s[a].setWeight(BandwidthWeight(2 + a, true, BandwidthWeight::Bisquare)); m[a].w = {1, 2.0 + a, true, 2}; }, [](const vector<MS>&) { return true; }});
        o.push_back({fmt("s%d.bandwidth=", a), [=](vector<SpatialWeight>& s, vector<MS>& m) { auto* w = s[a].weight<BandwidthWeight>(); w->setBandwidth(1.75 + a); w->setAdaptive(!w->adaptive()); w->setKernel(BandwidthWeight::Exponential); m[a].w.bw = 1.75 + a; m[a].w.ad = !m[a].w.ad; m[a].w.kern = 1; }, [=](const vector<MS>& m) { return m[a].w.st == 1; }});
        for (int k = 0; k < KINDS; k++) o.push_back({fmt("s%d.setDistance(kind %d)", a, k), [=](vector<SpatialWeight>& s, vector<MS>& m) { auto d = kindObj(k); if (a % 2) give(d.get(), k, 1); s[a].setDistance(d.get()); m[a].d = {1, k, a % 2 ? 1 : -1}; }, [](const vector<MS>&) { return true; }});
        o.push_back({fmt("s%d.tweak", a), [=](vector<SpatialWeight>& s, vector<MS>& m) { m[a].d.alt ^= 1; tweak(s[a].distance(), m[a].d.kind, m[a].d.alt); }, [=](const vector<MS>& m) { return m[a].d.st == 1 && m[a].d.kind != 3; }});
        for (int p = 0; p < 2; p++) o.push_back({fmt("s%d.points(%d)", a, p), [=](vector<SpatialWeight>& s, vector<MS>& m) { give(s[a].distance(), m[a].d.kind, p); m[a].d.pts = p; }, [=](const vector<MS>& m) { return m[a].d.st == 1; }});
    }
    return o;
}
void caseVal(int N, int init, int depth, int first, Res& r) {
    auto O = ops(N); vector<int> seq{first}; std::set<string> outs;
    // depth-first over all operation sequences that start with `first`
    std::function<bool(vector<int>&)> rec = [&](vector<int>& q) -> bool {
        vector<SpatialWeight> s(N); vector<MS> m(N);
        for (int i = 0; i < N; i++) { if (init == 0) continue; int kind = (init + i) % KINDS; auto d = kindObj(kind); if (i == 0) give(d.get(), kind, 0); BandwidthWeight w(3 + i, i % 2 == 0, (BandwidthWeight::KernelFunctionType)((init + i) % 4)); s[i] = SpatialWeight(w, *d); m[i].w = {1, 3.0 + i, i % 2 == 0, (init + i) % 4}; m[i].d = {1, kind, i == 0 ? 0 : -1}; }
        string tr; bool legal = true;
        for (int i : q) { if (!O[i].can(m)) { legal = false; break; } O[i].f(s, m); tr += O[i].name + "; "; }
        if (!legal) return true;
        r.execs++; r.validated++; r.states++; r.transitions += q.size();
        string v = verify(s, m); if (!v.empty()) { r.bad("value", tr + ": " + v); return false; }
        if ((int)q.size() < depth) for (int i = 0; i < (int)O.size(); i++) { q.push_back(i); bool c = rec(q); q.pop_back(); if (!c) return false; }
        return true;
    };
    rec(seq); r.distinct++; if (r.execs) r.samples.push_back(fmt("%d objects, start %d, first operation %s: %llu sequences", N, init, O[first].name.c_str(), (unsigned long long)r.execs));
}
}
static Reg c06("C06", [](vector<Case>& cs, bool th) {
    vector<double> a5{0, 1, 1.5, 2, 4}, a3{0, 1, 2.5}, a2{0.7, 3};
    for (int kern = 0; kern < 5; kern++) for (int n = 1; n <= (th ? 9 : 7); n++) { auto al = n <= (th ? 6 : 5) ? a5 : n <= (th ? 8 : 7) ? a3 : a2; cs.push_back({fmt("kernel=%d;n=%d", kern, n), [=](Res& r) { caseKernel(n, kern, al, n <= 5, r); }, th ? 600 : 120}); }
});
static Reg c07("C07", [](vector<Case>& cs, bool) {
    for (auto& s : vector<string>{"dist=crs;set=plane|far|one|globe|street", "dist=geo;set=globe|plane|one|street", "dist=mink;mp=1|1.5|2|3|4|-1|10;mth=0|0.3|0.785398163397448|1.5|-0.5;set=plane|far|one", "dist=st;lambda=0|0.05|0.5|0.95|1;set=plane|far|one", "dist=st;angle=0|0.4|1.2|-0.7;lambda=0|0.05|0.5|0.95|1;set=plane|far", "dist=st;geo=1;lambda=0.05|0.5|1;set=plane|street", "dist=st;tms=close|years|before|same;lambda=0|0.3|1;set=plane|far", "dist=st;tms=close|years|before|same;angle=0.6;lambda=0.3|1;set=plane", "dist=crs;set=many", "dist=mink;mp=1|3|-1;mth=0.4;set=many", "dist=st;lambda=0.3;set=many"})
        for (auto& k : expand(s + ";make=ctor|setter|clone|remake;focus=0|1")) cs.push_back({k.str(), [=](Res& r) { caseDist(k, r); }});
});
static Reg c08("C08", [](vector<Case>& cs, bool th) {
    for (int init = 0; init <= KINDS; init++) { int no = (int)ops(2).size(); for (int f = 0; f < no; f++) cs.push_back({fmt("two;start=%d;first=%d", init, f), [=](Res& r) { caseVal(2, init, th ? 4 : 3, f, r); }, th ? 600 : 120}); }
    for (int init = 0; init <= (th ? KINDS : 1); init++) { int no = (int)ops(3).size(); for (int f = 0; f < no; f++) cs.push_back({fmt("three;start=%d;first=%d", init, f), [=](Res& r) { caseVal(3, init, th ? 3 : 2, f, r); }, th ? 600 : 120}); }
});
