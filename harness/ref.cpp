#include "ref.h"
#include <gsl/gsl_multimin.h>
#include <algorithm>
namespace ref {
static const double PI = 3.14159265358979323846;
static double gc(double lo1, double la1, double lo2, double la2) {
    if (lo1 == lo2 && la1 == la2) return 0;
    const ld r = PI / 180, a = 6378.137L, f = 1 / 298.257223563L;
    ld F = (la1 + la2) / 2 * r, G = (la1 - la2) / 2 * r, L = (lo1 - lo2) / 2 * r;
    ld sG = sinl(G) * sinl(G), cG = 1 - sG, sF = sinl(F) * sinl(F), cF = 1 - sF, sL = sinl(L) * sinl(L), cL = 1 - sL;
    ld S = sG * cL + cF * sL, C = cG * cL + sF * sL, w = atanl(sqrtl(S / C)), R = sqrtl(S * C) / w;
    return (double)(2 * w * a * (1 + f * (3 * R - 1) / (2 * C) * sF * cG - f * (3 * R + 1) / (2 * S) * cF * sG));
}
double dist2(const KV& k, double ax, double ay, double bx, double by) {
    std::string t = k.s("dist", "crs"); bool geo = t == "geo" || (t == "st" && k.i("geo", 0));
    if (geo) return gc(ax, ay, bx, by);
    ld dx = (ld)ax - bx, dy = (ld)ay - by;
    if (t == "mink") {
        double p = k.d("mp", 2), th = k.d("mth", 0);
        ld u = fabsl(dx * cosl(th) - dy * sinl(th)), v = fabsl(dx * sinl(th) + dy * cosl(th));
        if (p == -1) return (double)std::max(u, v);
        if (p == 1) return (double)(u + v);
        if (p == 2) return (double)sqrtl(u * u + v * v);
        return (double)powl(powl(u, p) + powl(v, p), 1 / (ld)p);
    }
    return (double)sqrtl(dx * dx + dy * dy);
}
vec distRow(const KV& k, const mat& fp, uword f, const mat& dp, const vec* ft, const vec* dt) {
    vec d(dp.n_rows);
    for (uword j = 0; j < dp.n_rows; j++) {
        double s = dist2(k, fp(f, 0), fp(f, 1), dp(j, 0), dp(j, 1));
        if (k.s("dist", "crs") == "st") {
            double l = k.d("lambda", 0.5), t = (*ft)(f) - (*dt)(j), c = k.has("angle") ? std::cos(k.d("angle")) : 1.0;
            if (l == 1) t = std::fabs(t);
            d(j) = t < 0 ? 1e13 : (double)((ld)l * s + (1 - (ld)l) * t + 2 * sqrtl((ld)l * (1 - (ld)l) * s * t) * c);
        } else d(j) = s;
    }
    return d;
}
vec kernel(const vec& d, double bw, bool adaptive, int kern) {
    uword n = d.n_elem; double b = bw;
    if (adaptive) {
        std::vector<double> s(d.begin(), d.end()); std::sort(s.begin(), s.end());
        if (bw >= (double)n) b = s[n - 1] * (bw / n);
        else { uword q = (uword)std::floor(bw); b = s[q - 1] + (s[q] - s[q - 1]) * (bw - q); }
    }
    vec w(n);
    for (uword i = 0; i < n; i++) {
        ld r = (ld)d(i) / b, v = 0;
        if (kern == 0) v = expl(-r * r / 2);
        else if (kern == 1) v = expl(-r);
        else if (d(i) < b) v = kern == 2 ? (1 - r * r) * (1 - r * r) : kern == 3 ? powl(1 - r * r * r, 3) : 1;
        w(i) = (double)v;
    }
    return w;
}
mat weightMatrix(const KV& k, double bw, const mat& fp, const mat& dp, const vec* ft, const vec* dt) {
    mat W(dp.n_rows, fp.n_rows);
    for (uword f = 0; f < fp.n_rows; f++) W.col(f) = kernel(distRow(k, fp, f, dp, ft, dt), bw, k.i("adaptive", 1) != 0, k.i("kernel", 0));
    return W;
}
bool inverse(const mat& a, mat& out, double& rcond) {
    uword n = a.n_rows; std::vector<std::vector<ld>> m(n, std::vector<ld>(2 * n, 0));
    // scale symmetrically so that the pivot ratio is a fair measure
    std::vector<ld> s(n, 1);
    for (uword i = 0; i < n; i++) { ld v = fabsl((ld)a(i, i)); if (!(v > 0) || !std::isfinite((double)v)) { rcond = 0; return false; } s[i] = 1 / sqrtl(v); }
    for (uword i = 0; i < n; i++) { for (uword j = 0; j < n; j++) m[i][j] = (ld)a(i, j) * s[i] * s[j]; m[i][n + i] = 1; }
    for (uword c = 0; c < n; c++) {
        uword p = c; for (uword i = c + 1; i < n; i++) if (fabsl(m[i][c]) > fabsl(m[p][c])) p = i;
        ld pv = fabsl(m[p][c]); if (!std::isfinite((double)pv)) { rcond = 0; return false; } rcond = std::min(rcond, (double)pv); if (pv < 1e-17L) { rcond = 0; return false; }
        std::swap(m[p], m[c]); ld q = m[c][c]; for (auto& v : m[c]) v /= q;
        for (uword i = 0; i < n; i++) if (i != c) { ld f = m[i][c]; if (f != 0) for (uword j = 0; j < 2 * n; j++) m[i][j] -= f * m[c][j]; }
    }
    out.set_size(n, n); for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) out(i, j) = (double)(m[i][n + j] * s[i] * s[j]);
    return true;
}
static double dot(const vec& a, const vec& b) { ld s = 0; for (uword i = 0; i < a.n_elem; i++) s += (ld)a(i) * b(i); return (double)s; }
Wls wls(const mat& x, const vec& y, const vec& w) {
    uword n = x.n_rows, p = x.n_cols; Wls r; mat A(p, p), I;
    for (uword a = 0; a < p; a++) for (uword b = 0; b < p; b++) { ld s = 0; for (uword i = 0; i < n; i++) s += (ld)x(i, a) * w(i) * x(i, b); A(a, b) = (double)s; }
    if (!inverse(A, I, r.rcond)) { r.ok = false; return r; }
    r.C.set_size(p, n); r.beta.zeros(p);
    for (uword a = 0; a < p; a++) for (uword i = 0; i < n; i++) { ld s = 0; for (uword b = 0; b < p; b++) s += (ld)I(a, b) * x(i, b); r.C(a, i) = (double)(s * w(i)); }
    for (uword a = 0; a < p; a++) { ld s = 0; for (uword i = 0; i < n; i++) s += (ld)r.C(a, i) * y(i); r.beta(a) = (double)s; }
    return r;
}
static void diagnostics(Fit& f, const mat& x, const vec& y) {
    uword n = x.n_rows; ld rss = 0, m = 0, yss = 0;
    for (uword i = 0; i < n; i++) { ld e = y(i); for (uword a = 0; a < x.n_cols; a++) e -= (ld)x(i, a) * f.betas(i, a); rss += e * e; m += y(i); }
    m /= n; for (uword i = 0; i < n; i++) yss += ((ld)y(i) - m) * ((ld)y(i) - m);
    double N = n, t = f.shat(0), tt = f.shat(1);
    f.RSS = (double)rss; double base = N * std::log(f.RSS / N) + N * std::log(2 * PI);
    f.AIC = base + N + t; f.AICc = base + N * (N + t) / (N - 2 - t); f.EDF = N - 2 * t + tt; f.ENP = 2 * t - tt; f.R2 = (double)(1 - rss / yss); f.R2adj = 1 - (1 - f.R2) * (N - 1) / (f.EDF - 1);
}
Fit fit(const mat& x, const vec& y, const mat& W) {
    uword n = x.n_rows, p = x.n_cols; Fit f; f.betas.zeros(n, p); f.se.zeros(n, p); f.S.zeros(n, n); f.C.zeros(p, n, n); f.shat.zeros(2); f.qdiag.zeros(n);
    for (uword i = 0; i < n; i++) {
        Wls r = wls(x, y, W.col(i)); f.rcond = std::min(f.rcond, r.rcond); if (!r.ok) { f.ok = false; return f; }
        f.betas.row(i) = r.beta.t(); f.C.slice(i) = r.C;
        for (uword a = 0; a < p; a++) { vec c = r.C.row(a).t(); f.se(i, a) = dot(c, c); }
        for (uword j = 0; j < n; j++) { ld s = 0; for (uword a = 0; a < p; a++) s += (ld)x(i, a) * r.C(a, j); f.S(i, j) = (double)s; }
    }
    for (uword i = 0; i < n; i++) { f.shat(0) += f.S(i, i); for (uword j = 0; j < n; j++) { f.shat(1) += f.S(i, j) * f.S(i, j); double q = (i == j) - f.S(i, j); f.qdiag(j) += q * q; } }
    diagnostics(f, x, y); { ld q = 0; for (double v : y) q += (ld)v * v; if (!(f.RSS > 1e-20 / f.rcond / f.rcond * q)) f.rcond = 0; }   // residuals that are nothing but rounding
    double sig = f.RSS / f.EDF; for (uword i = 0; i < n; i++) for (uword a = 0; a < p; a++) f.se(i, a) = std::sqrt(sig * f.se(i, a));
    return f;
}
mat coef(const mat& x, const vec& y, const mat& W, bool& ok, double& rcond) {
    mat b(W.n_cols, x.n_cols); ok = true;
    for (uword i = 0; i < W.n_cols; i++) { Wls r = wls(x, y, W.col(i)); rcond = std::min(rcond, r.rcond); if (!r.ok) { ok = false; return b; } b.row(i) = r.beta.t(); }
    return b;
}
double critCV(const mat& x, const vec& y, mat W, bool& ok, double& rcond) {
    for (uword i = 0; i < W.n_cols; i++) W(i, i) = 0;
    mat b = coef(x, y, W, ok, rcond); if (!ok) return DBL_MAX;
    ld s = 0; for (uword i = 0; i < x.n_rows; i++) { ld e = y(i); for (uword a = 0; a < x.n_cols; a++) e -= (ld)x(i, a) * b(i, a); s += e * e; }
    return (double)s;
}
double critAICc(const mat& x, const vec& y, const mat& W, bool& ok, double& rcond) { Fit f = fit(x, y, W); ok = f.ok; rcond = std::min(rcond, f.rcond); if (ok && std::fabs(x.n_rows - 2 - f.shat(0)) < 0.3) rcond = 0; return f.AICc; }
void put(Out& o, const Fit& f, bool S, bool C, bool aic) {
    o.add("ret", f.betas); o.add("betas", f.betas); o.add("se", f.se); o.add("shat", mat(f.shat)); o.add("qdiag", mat(f.qdiag)); if (S) o.add("S", f.S); if (C) o.add("C", f.C);
    o.add("RSS", f.RSS); if (aic) o.add("AIC", f.AIC); o.add("AICc", f.AICc); o.add("ENP", f.ENP); o.add("EDF", f.EDF); o.add("R2", f.R2); o.add("R2adj", f.R2adj);
}
static vec column(const mat& m, uword j) { vec v(m.n_rows); for (uword i = 0; i < m.n_rows; i++) v(i) = m(i, j); return v; }
static Exp fromFit(const KV& k, const mat& x, const vec& y, const mat& W, bool c) {
    Exp e; Fit f = fit(x, y, W); e.rcond = f.rcond; e.ok = f.ok; if (!f.ok) { e.why = "singular"; return e; }
    bool mpi = k.s("par").substr(0, 3) == "mpi"; bool hat = k.i("hat", 1) != 0;
    put(e.o, f, hat && !mpi, c && hat && !mpi); return e;
}
static mat gwdrW(const KV& k, const Data& d, const vec& bw) {
    uword n = d.x.n_rows; mat W(n, n, arma::fill::ones);
    for (uword j = 0; j < bw.n_elem; j++) {
        vec c = j < 2 ? column(d.coords, j) : d.times; KV pv = perVar(k, j);
        for (uword f = 0; f < n; f++) { vec q(n); for (uword i = 0; i < n; i++) q(i) = std::fabs(c(i) - c(f)); vec w = kernel(q, bw(j), pv.i("adaptive", 1) != 0, pv.i("kernel", 0)); for (uword i = 0; i < n; i++) W(i, f) *= w(i); }
    }
    return W;
}
double gwdrCrit(const KV& k, const vec& bw, bool cv, bool& ok, double& rc) { Data d = makeData(k); mat W = gwdrW(k, d, bw); ok = true; rc = 1; return cv ? critCV(d.x, d.y, W, ok, rc) : critAICc(d.x, d.y, W, ok, rc); }
struct Simplex { const KV* k; const Data* d; bool shaky = false; int noise = 0; unsigned calls = 0; };
static double simplexCrit(const gsl_vector* v, void* p) {
    Simplex* s = (Simplex*)p; vec bw(v->size); for (uword j = 0; j < bw.n_elem; j++) { bw(j) = std::fabs(gsl_vector_get(v, j)) * s->d->x.n_rows; if (perVar(*s->k, j).i("adaptive", 1) && bw(j) < 1) { if (bw(j) > 1 - 1e-9) s->shaky = true; return DBL_MAX; } }
    bool ok = true; double rc = 1; mat W = gwdrW(*s->k, *s->d, bw); double c = s->k->s("sel") == "cv" ? critCV(s->d->x, s->d->y, W, ok, rc) : critAICc(s->d->x, s->d->y, W, ok, rc);
    if (rc < 1e-6 || !ok || !std::isfinite(c)) s->shaky = true; if (!ok || !std::isfinite(c)) return DBL_MAX;
    if (s->noise) { unsigned h = (s->calls++ * 2654435761u + s->noise * 40503u); c += ((int)(h >> 16) % 1000 / 500.0 - 1) * 1e-9 * (1e-3 + std::fabs(c)); }
    return c;
}
// simplex search over the bandwidths as fractions of the number of observations; false: no verdict
static bool simplexOnce(const KV& k, const Data& d, int noise, vec& bw, bool& converged) {
    int dims = k.i("dims", 2); double n = d.x.n_rows; bw.set_size(dims); std::vector<bool> ad; for (int j = 0; j < dims; j++) ad.push_back(perVar(k, j).i("adaptive", 1) != 0);
    gsl_vector *t = gsl_vector_alloc(dims), *st = gsl_vector_alloc(dims);
    for (int j = 0; j < dims; j++) {
        vec c = j < 2 ? column(d.coords, j) : d.times; double lo = d.x.n_cols + 1, hi = n; if (!ad[j]) { lo = DBL_MAX; hi = 0; for (uword a = 0; a < c.n_elem; a++) for (uword b = 0; b < c.n_elem; b++) { double q = std::fabs(c(a) - c(b)); hi = std::max(hi, q); lo = std::min(lo, q); } }
        bw(j) = k.d(j == 0 ? "bw" : "bw2", 6); if (bw(j) <= lo || bw(j) >= hi) bw(j) = hi * 0.618; gsl_vector_set(t, j, bw(j) / n); gsl_vector_set(st, j, k.d("bwstep", 0.01));
    }
    Simplex s; s.k = &k; s.d = &d; s.noise = noise; gsl_multimin_function f = {simplexCrit, (size_t)dims, &s}; auto* m = gsl_multimin_fminimizer_alloc(gsl_multimin_fminimizer_nmsimplex2rand, dims);
    int rc = gsl_multimin_fminimizer_set(m, &f, t, st), it = 0; converged = false;
    if (rc == 0) { do { it++; gsl_multimin_fminimizer_iterate(m); rc = gsl_multimin_test_size(gsl_multimin_fminimizer_size(m), k.d("bweps", 1e-6)); } while (rc == GSL_CONTINUE && it < k.i("maxit", 12)); converged = rc == 0; for (int j = 0; j < dims; j++) { bw(j) = std::fabs(gsl_vector_get(m->x, j)) * n; if (ad[j]) { if (std::fabs(bw(j) - std::floor(bw(j)) - 0.5) < 1e-6) s.shaky = true; bw(j) = std::round(bw(j)); } } }
    gsl_multimin_fminimizer_free(m); gsl_vector_free(t); gsl_vector_free(st); return rc != GSL_FAILURE && !s.shaky;
}
// a verdict only if the search ends at the same place when every criterion value is off by 1e-9
bool gwdrSearch(const KV& k, vec& bw, bool& converged) {
    Data d = makeData(k); if (!simplexOnce(k, d, 0, bw, converged)) return false;
    for (int z = 1; z <= 3; z++) { vec b; bool c; if (!simplexOnce(k, d, z, b, c) || c != converged) return false; for (uword j = 0; j < b.n_elem; j++) if (std::fabs(b(j) - bw(j)) > 1e-6 * (1 + bw(j))) return false; }
    return true;
}
Exp expect(const KV& k) {
    std::string a = k.s("algo");
    if (a == "gwr") { Data d = makeData(k); mat W = weightMatrix(k, k.d("bw", 6), d.coords, d.coords); Exp e = fromFit(k, d.x, d.y, W, k.i("storeC") != 0); e.o.add("bw", k.d("bw", 6)); return e; }
    if (a == "gtwr") { KV q = k.with("dist", "st"); Data d = makeData(q); mat W = weightMatrix(q, k.d("bw", 6), d.coords, d.coords, &d.times, &d.times); Exp e = fromFit(k, d.x, d.y, W, false); e.o.add("bw", k.d("bw", 6)); return e; }
    if (a == "gwdr") {
        Data d = makeData(k); int dims = k.i("dims", 2); uword n = d.x.n_rows; mat W(n, n, arma::fill::ones), bw(dims, 1);
        for (int j = 0; j < dims; j++) bw(j) = k.d(j == 0 ? "bw" : (k.has("bw3") && j == 2) ? "bw3" : "bw2", 6);
        W = gwdrW(k, d, vec(bw));
        Exp e = fromFit(k, d.x, d.y, W, false); e.o.add("bw", bw); return e;
    }
    if (a == "robust") return expectRobust(k);
    if (a == "mgwr") return expectMgwr(k);
    if (a == "ggwr") return expectGgwr(k);
    if (a == "lcr") return expectLcr(k);
    if (a == "scal") return expectScal(k);
    if (a == "gwss") return expectGwss(k);
    if (a == "gwpca") return expectGwpca(k);
    if (a == "gwda") return expectGwda(k);
    abort();
}
}
