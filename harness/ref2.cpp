// Executable specification of the models beyond plain local regression.
#include "ref.h"
#include <gsl/gsl_multimin.h>
#include <algorithm>
namespace ref {
static const double PI = 3.14159265358979323846;
static mat W0(const KV& k, const Data& d) { return weightMatrix(k, k.d("bw", 6), d.coords, d.coords); }
static vec colv(const mat& m, uword j) { vec v(m.n_rows); for (uword i = 0; i < m.n_rows; i++) v(i) = m(i, j); return v; }
double maxDist(const KV& k, const mat& c) { double m = 0; for (uword i = 0; i < c.n_rows; i++) for (uword j = 0; j < c.n_rows; j++) m = std::max(m, dist2(k, c(i, 0), c(i, 1), c(j, 0), c(j, 1))); return m; }
vec singular(const mat& a, mat* Vo) {
    uword n = a.n_rows, p = a.n_cols; std::vector<std::vector<ld>> u(p, std::vector<ld>(n)), v(p, std::vector<ld>(p, 0));
    for (uword j = 0; j < p; j++) { v[j][j] = 1; for (uword i = 0; i < n; i++) u[j][i] = a(i, j); }
    for (int sweep = 0; sweep < 60; sweep++) {
        ld off = 0;
        for (uword i = 0; i + 1 < p; i++) for (uword j = i + 1; j < p; j++) {
            ld al = 0, be = 0, ga = 0; for (uword r = 0; r < n; r++) { al += u[i][r] * u[i][r]; be += u[j][r] * u[j][r]; ga += u[i][r] * u[j][r]; }
            if (ga == 0 || al == 0 || be == 0) continue; off = std::max(off, fabsl(ga) / sqrtl(al * be));
            ld z = (be - al) / (2 * ga), t = (z >= 0 ? 1 : -1) / (fabsl(z) + sqrtl(1 + z * z)), c = 1 / sqrtl(1 + t * t), s = c * t;
            for (uword r = 0; r < n; r++) { ld q = u[i][r]; u[i][r] = c * q - s * u[j][r]; u[j][r] = s * q + c * u[j][r]; }
            for (uword r = 0; r < p; r++) { ld q = v[i][r]; v[i][r] = c * q - s * v[j][r]; v[j][r] = s * q + c * v[j][r]; }
        }
        if (off < 1e-17L) break;
    }
    std::vector<std::pair<double, uword>> o; for (uword j = 0; j < p; j++) { ld s = 0; for (ld q : u[j]) s += q * q; o.push_back({-(double)sqrtl(s), j}); } std::sort(o.begin(), o.end());
    vec s(p); if (Vo) Vo->set_size(p, p);
    for (uword j = 0; j < p; j++) { s(j) = -o[j].first; if (Vo) for (uword r = 0; r < p; r++) (*Vo)(r, j) = (double)v[o[j].second][r]; }
    return s;
}
Golden golden(double xL, double xU, bool ad, const std::function<double(double)>& f) {
    const double mn = std::min(xL, xU), mx = std::max(xL, xU); auto cl = [&](double v) { return std::min(std::max(v, mn), mx); };
    Golden g; const double R = (std::sqrt(5.0) - 1) / 2, eps = 1e-4; double d = R * (xU - xL);
    auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-6 * (1 + std::min(std::fabs(a), std::fabs(b))); };
    auto half = [&](double v) { if (ad) { double fr = v - std::floor(v); if (std::fabs(fr - 0.5) < 1e-9 || fr < 1e-9 || fr > 1 - 1e-9) {} } return v; };
    auto ev = [&](double x) { double v = f(x); if (v < DBL_MAX) g.evals[x] = v; return v; };
    double x1 = ad ? std::floor(half(xL + d)) : xL + d, x2 = ad ? std::round(half(xU - d)) : xU - d, f1 = ev(x1), f2 = ev(x2);
    if (f1 == DBL_MAX && f2 == DBL_MAX) { g.failed = true; return g; }
    double xo = f1 < f2 ? x1 : x2; int it = 0;
    auto watch = [&]() { if (x1 != x2 && f1 != f2 && near(f1, f2)) g.tie = true; if (std::fabs(std::fabs(f1 - f2) - eps) < 1e-7 * (1 + std::fabs(f1))) g.tie = true; };
    watch();
    while (std::fabs(d) > eps && std::fabs(f2 - f1) > eps && it < 100) {
        d *= R;
        if (f1 < f2) { xL = x2; x2 = x1; x1 = ad ? cl(std::round(xL + d)) : xL + d; f2 = f1; f1 = ev(x1); }
        else { xU = x1; x1 = x2; x2 = ad ? cl(std::floor(xU - d)) : xU - d; f1 = f2; f2 = ev(x2); }
        it++; xo = f1 < f2 ? x1 : x2; watch();
    }
    g.x = xo; return g;
}
// ---- robust --------------------------------------------------------------------------------------
Exp expectRobust(const KV& k) {
    Data d = makeData(k); mat W = W0(k, d); uword n = d.x.n_rows; Exp e; vec mask(n, arma::fill::ones); Fit f;
    auto go = [&]() { mat M = W; for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) M(j, i) *= mask(j); f = fit(d.x, d.y, M); e.rcond = std::min(e.rcond, f.rcond); if (!f.ok) e.ok = false; return f.ok; };
    auto res = [&]() { vec r(n); for (uword i = 0; i < n; i++) { ld v = d.y(i); for (uword a = 0; a < d.x.n_cols; a++) v -= (ld)d.x(i, a) * f.betas(i, a); r(i) = (double)v; } return r; };
    auto near = [&](double a, double b) { if (std::fabs(a - b) < 1e-7 * (1 + std::fabs(b))) e.tie = true; };
    if (!go()) return e;
    if (k.i("filt", 0)) {
        vec r = res(); double sig = f.RSS / f.EDF;
        for (uword i = 0; i < n; i++) { double t = std::fabs(r(i) / std::sqrt(sig * f.qdiag(i))); near(t, 3); mask(i) = t > 3 ? 0 : 1; }
        if (!go()) return e;
    } else {
        auto mse = [&](const vec& r) { ld s = 0; for (double v : r) s += (ld)v * v; return (double)(s / n); };
        auto filt = [&](const vec& r, double m) { for (uword i = 0; i < n; i++) { double t = std::fabs(r(i) / std::sqrt(m)); near(t, 3); mask(i) = t <= 2 ? 1 : t < 3 ? std::pow(1 - (t - 2) * (t - 2), 2) : 0; } };
        vec r = res(); double m = mse(r), df = 1; filt(r, m); int it = 0;
        while (df > 1e-5 && it < 20) { double old = m; if (!go()) return e; r = res(); m = mse(r); filt(r, m); df = std::fabs(old - m) / m; if (std::fabs(df - 1e-5) < 1e-9) e.tie = true; it++; }
    }
    put(e.o, f, true, false); e.o.add("bw", k.d("bw", 6)); return e;
}
// ---- multiscale ----------------------------------------------------------------------------------
Exp expectMgwr(const KV& k) {
    Data d = makeData(k); uword n = d.x.n_rows, p = d.x.n_cols; Exp e; mat x = d.x; vec y = d.y; bool ad = k.i("adaptive", 1) != 0, hat = k.i("hat", 1) != 0, icpt = k.i("icpt", 1) != 0;
    std::string sel = k.s("sel", "no"), init = k.s("init", sel == "no" ? "spec" : "null");
    for (uword j = icpt ? 1 : 0; j < p; j++) if (perVar(k, j).i("center", 0)) { ld m = 0; for (uword i = 0; i < n; i++) m += x(i, j); m /= n; for (uword i = 0; i < n; i++) x(i, j) = (double)(x(i, j) - m); }
    double md = maxDist(k, d.coords); std::vector<KV> pv; std::vector<double> pmd; for (uword j = 0; j < p; j++) { pv.push_back(perVar(k, j)); pmd.push_back(maxDist(pv[j], d.coords)); }
    auto wm = [&](uword j, double b) { return weightMatrix(pv[j], b, d.coords, d.coords); };
    auto crit = [&](uword j, const mat& xx, const vec& yy, double b) { bool aic = pv[j].s("sel") == "aic"; bool ok; double rc = 1; double v = aic ? critAICc(xx, yy, wm(j, b), ok, rc) : critCV(xx, yy, wm(j, b), ok, rc); if (rc < 1e-9) { e.tie = true; } if (!ok || !std::isfinite(v)) return DBL_MAX; return v; };
    Golden g = golden(k.d("lo", ad ? 20 : 0), k.d("hi", ad ? (double)n : md), ad, [&](double b) { return crit(0, x, y, b); });
    if (g.failed) { e.ok = false; e.why = "initial search failed"; return e; } e.tie |= g.tie;
    Fit f = fit(x, y, wm(0, g.x)); e.rcond = f.rcond; if (!f.ok) { e.ok = false; return e; }
    std::vector<double> bw(p); std::vector<std::string> st(p, init); if (k.has("mix")) st[p - 1] = k.s("mix");
    for (uword j = 0; j < p; j++) { std::string key = "bw" + std::to_string(j); bw[j] = k.d(k.has(key) ? key : "bw", 6); }
    
    auto search = [&](uword j, const vec& yy) { bool ad = pv[j].i("adaptive", 1) != 0; double lo = k.d("lo", ad ? k.i("alow", 10) : 0), hi = k.d("hi", ad ? (double)n : pmd[j]); mat xx(n, 1); for (uword i = 0; i < n; i++) xx(i) = x(i, j); Golden q = golden(lo, hi, ad, [&](double b) { return crit(j, xx, yy, b); }); e.tie |= q.tie; if (q.failed) { e.ok = false; e.why = "search failed"; } return q.x; };
    for (uword j = 0; j < p; j++) if (st[j] == "null") { bw[j] = search(j, y); if (!e.ok) return e; }
    mat B = f.betas, S0 = f.S; std::vector<mat> SA(p, mat(n, n));
    for (uword j = 0; j < p; j++) for (uword i = 0; i < n; i++) for (uword q = 0; q < n; q++) SA[j](i, q) = x(i, j) * f.C(j, q, i);
    auto resid = [&]() { vec r(n); for (uword i = 0; i < n; i++) { ld v = y(i); for (uword a = 0; a < p; a++) v -= (ld)x(i, a) * B(i, a); r(i) = (double)v; } return r; };
    auto rss = [&](const vec& r) { ld s = 0; for (double v : r) s += (ld)v * v; return (double)s; };
    vec r = resid(); double R0 = rss(r), R1 = DBL_MAX, c = DBL_MAX, thr = k.d("eps", 1e-6); std::vector<int> chg(p, 0); int retry = k.i("retry", 2); std::vector<double> bf;
    for (int it = 1; it <= k.i("maxit", 6) && c > thr; it++) {
        for (uword j = 0; j < p; j++) {
            vec yi(n); for (uword i = 0; i < n; i++) yi(i) = r(i) + B(i, j) * x(i, j);
            if (st[j] != "spec") {
                double nb = search(j, yi), ob = bw[j]; if (!e.ok) return e;
                if (std::fabs(std::fabs(nb - bw[j]) - pv[j].d("bwthr", 1e-5)) < 1e-7) e.tie = true; if (std::fabs(nb - bw[j]) > pv[j].d("bwthr", 1e-5)) chg[j] = 0; else if (++chg[j] >= retry) st[j] = "spec";
                double left = chg[j] == 0 ? -1 : chg[j] >= retry ? -2 : retry - chg[j]; for (double v : {(double)j, ob, nb, std::fabs(nb - ob), left}) bf.push_back(v);
                bw[j] = nb;
            }
            mat W = wm(j, bw[j]), S(n, n);
            for (uword i = 0; i < n; i++) {
                ld a = 0, b = 0; for (uword q = 0; q < n; q++) { a += (ld)W(q, i) * x(q, j) * x(q, j); b += (ld)W(q, i) * x(q, j) * yi(q); }
                if (!(a > 1e-14L)) { e.ok = false; return e; }
                B(i, j) = (double)(b / a); for (uword q = 0; q < n; q++) S(i, q) = (double)((ld)x(i, j) * W(q, i) * x(q, j) / a);
            }
            mat Si = SA[j] - S0; SA[j] = S * Si + S; S0 = SA[j] - Si; r = resid();
        }
        R1 = rss(r); c = k.s("crit", "dcvr") == "cvr" ? std::fabs(R1 - R0) : std::sqrt(std::fabs(R1 - R0) / R1); if (std::fabs(c - thr) < 1e-3 * thr) e.tie = true; for (double v : {-1.0, c, R0, R1, (double)it}) bf.push_back(v); R0 = R1;
    }
    double tss = 0, m = 0; for (double v : y) m += v; m /= n; for (double v : y) tss += (v - m) * (v - m);
    double t = 0, tt = 0, N = n; if (hat) for (uword i = 0; i < n; i++) { t += S0(i, i); for (uword j = 0; j < n; j++) tt += S0(i, j) * S0(i, j); }
    double base = N * std::log(R0 / N) + N * std::log(2 * PI), R2 = 1 - R0 / tss, edf = N - 2 * t + tt;
    e.o.add("ret", B); e.o.add("betas", B); e.o.add("RSS", R0); e.o.add("AIC", base + N + t); e.o.add("AICc", base + N * (N + t) / (N - 2 - t)); e.o.add("ENP", 2 * t - tt); e.o.add("EDF", edf); e.o.add("R2", R2); e.o.add("R2adj", 1 - (1 - R2) * (N - 1) / (edf - 1));
    mat bm(p, 1); for (uword j = 0; j < p; j++) bm(j) = bw[j]; e.o.add("bw", bm); mat bfm(5, bf.size() / 5); for (uword i = 0; i < bf.size(); i++) bfm(i) = bf[i]; e.o.add("backfit", bfm.t()); return e;
}
// ---- generalized ---------------------------------------------------------------------------------
static bool irls(const KV& k, const mat& x, const vec& y, const mat& W, vec& yadj, vec& wt2, vec& mu, double& llik, double& rc) {
    bool poi = k.s("fam", "poisson") == "poisson"; uword n = x.n_rows; int maxit = k.i("maxit", 20); double tol = k.d("tol", 1e-5);
    vec nu(n); mu.set_size(n); wt2.ones(n); llik = 0; yadj.zeros(n);
    for (uword i = 0; i < n; i++) { mu(i) = poi ? y(i) + 0.1 : 0.5; nu(i) = poi ? std::log(mu(i)) : 0; }
    for (int it = 0; it < maxit; it++) {
        for (uword i = 0; i < n; i++) yadj(i) = nu(i) + (y(i) - mu(i)) / (poi ? mu(i) : mu(i) * (1 - mu(i)));
        vec eta(n);
        for (uword i = 0; i < n; i++) { vec w(n); for (uword j = 0; j < n; j++) w(j) = W(j, i) * wt2(j); Wls r = wls(x, yadj, w); rc = std::min(rc, r.rcond); if (!r.ok) return false; ld s = 0; for (uword a = 0; a < x.n_cols; a++) s += (ld)x(i, a) * r.beta(a); eta(i) = (double)s; }
        nu = eta; double old = llik; ld l = 0;
        for (uword i = 0; i < n; i++) {
            if (poi) { mu(i) = std::exp(nu(i)); l += -mu(i) + y(i) * std::log(mu(i)) - std::lgamma(y(i) + 1); }
            else { mu(i) = std::exp(nu(i)) / (1 + std::exp(nu(i))); l += (1 - y(i)) * std::log(1 - mu(i)) + y(i) * std::log(mu(i)); }
        }
        llik = (double)l; if (!std::isfinite(llik)) return false;
        double df = std::fabs((old - llik) / llik); if (std::fabs(df - tol) < 1e-6 * tol) rc = 0; if (df < tol) break;
        for (uword i = 0; i < n; i++) wt2(i) = poi ? mu(i) : mu(i) * (1 - mu(i));
    }
    return true;
}
Glm glmFit(const KV& k, const mat& x, const vec& y, const mat& Wd, const mat& Wp) {
    Glm g; bool poi = k.s("fam", "poisson") == "poisson"; uword n = x.n_rows, p = x.n_cols, m = Wp.n_cols; vec yadj, mu;
    if (!irls(k, x, y, Wd, yadj, g.wt2, mu, g.llik, g.rcond)) { g.ok = false; return g; }
    g.betas.zeros(m, p); g.se.zeros(m, p); g.S.zeros(m, n);
    for (uword i = 0; i < m; i++) {
        vec w(n); for (uword j = 0; j < n; j++) w(j) = Wp(j, i) * g.wt2(j); Wls r = wls(x, yadj, w); g.rcond = std::min(g.rcond, r.rcond); if (!r.ok) { g.ok = false; return g; }
        g.betas.row(i) = r.beta.t(); if (m != n) continue;
        for (uword a = 0; a < p; a++) { ld s = 0; for (uword j = 0; j < n; j++) s += (ld)r.C(a, j) * r.C(a, j) / g.wt2(j); g.se(i, a) = (double)sqrtl(s); }
        for (uword j = 0; j < n; j++) { ld s = 0; for (uword a = 0; a < p; a++) s += (ld)x(i, a) * r.C(a, j); g.S(i, j) = (double)s; g.trSS += (double)(s * s); }
        g.trS += g.S(i, i);
    }
    if (m == n) {
        ld dv = 0; for (uword i = 0; i < n; i++) {
            if (poi) dv += y(i) != 0 ? 2 * (y(i) * (std::log(y(i) / mu(i)) - 1) + mu(i)) : 2 * mu(i);
            else { double eta = 0; for (uword a = 0; a < p; a++) eta += x(i, a) * g.betas(i, a); double q = std::exp(eta) / (1 + std::exp(eta)); dv += -2 * std::log(std::fabs(y(i) - 1 + q)); }
        }
        g.dev = (double)dv; g.AIC = g.dev + 2 * g.trS; g.AICc = g.AIC + 2 * g.trS * (g.trS + 1) / (n - g.trS - 1);
    }
    // global model
    auto devi = [&](const vec& mm) { ld s = 0; for (uword i = 0; i < n; i++) { double a = y(i), b = mm(i); if (poi) s += 2 * (a > 0 ? a * std::log(a / b) - (a - b) : b); else s += 2 * ((a != 0 ? a * std::log(a / b) : 0) + (a != 1 ? (1 - a) * std::log((1 - a) / (1 - b)) : 0)); } return (double)s; };
    vec q(n), eta(n); for (uword i = 0; i < n; i++) { q(i) = poi ? y(i) + 0.1 : (y(i) + 0.5) / 2; eta(i) = poi ? std::log(q(i)) : std::log(q(i) / (1 - q(i))); }
    double old = devi(q), dv = old; vec z(n), w(n);
    for (int it = 0; it < 25; it++) {
        for (uword i = 0; i < n; i++) { double v = poi ? q(i) : q(i) * (1 - q(i)); z(i) = eta(i) + (y(i) - q(i)) / v; w(i) = v; }
        Wls r = wls(x, z, w); if (!r.ok || r.rcond < 1e-9) { g.ok = false; return g; }
        for (uword i = 0; i < n; i++) { ld s = 0; for (uword a = 0; a < p; a++) s += (ld)x(i, a) * r.beta(a); eta(i) = (double)s; q(i) = poi ? std::exp(eta(i)) : std::exp(eta(i)) / (1 + std::exp(eta(i))); }
        dv = devi(q); if (!std::isfinite(dv)) { g.ok = false; return g; }
        if (std::fabs(dv - old) / (0.1 + std::fabs(dv)) < 1e-8) break; old = dv;
    }
    vec mm(n); double av = 0; for (double v : y) av += v; mm.fill(av / n); g.gdev = dv; g.nulldev = devi(mm); g.R2 = 1 - g.dev / g.nulldev;
    return g;
}
Exp expectGgwr(const KV& k) {
    Data d = makeData(k); mat W = W0(k, d); Exp e; Glm g = glmFit(k, d.x, d.y, W, W); e.ok = g.ok; e.rcond = g.rcond; if (!g.ok) return e;
    for (double v : g.wt2) if (v < 1e-6 || v > 1e6) { e.ok = false; return e; }      // separated data: no finite optimum
    double n = d.x.n_rows, p = d.x.n_cols;
    e.o.add("ret", g.betas); e.o.add("betas", g.betas); e.o.add("nulldev", g.nulldev); e.o.add("glmdev", g.gdev); double a = g.gdev + 2 * p; e.o.add("glmAIC", a); e.o.add("glmAICc", a + 2 * p * (p + 1) / (n - p - 1)); e.o.add("glmR2", 1 - g.gdev / g.nulldev);
    if (k.i("hat", 1)) { e.o.add("gdev", g.dev); e.o.add("gAIC", g.AIC); e.o.add("gAICc", g.AICc); e.o.add("gR2", g.R2); e.o.add("~se", g.se); mat sh(2, 1); sh(0) = g.trS; sh(1) = g.trSS; e.o.add("~shat", sh); }
    e.o.add("bw", k.d("bw", 6)); return e;
}
double ggwrCrit(const KV& k, const mat& x, const vec& y, mat W, bool cv, bool& ok, double& rc) {
    uword n = x.n_rows; vec yadj, wt2, mu; double l; ok = true; if (cv) for (uword i = 0; i < n; i++) W(i, i) = 0;
    if (!irls(k, x, y, W, yadj, wt2, mu, l, rc)) { ok = false; return DBL_MAX; }
    ld s = 0, tr = 0; bool poi = k.s("fam", "poisson") == "poisson";
    for (uword i = 0; i < n; i++) {
        vec w(n); for (uword j = 0; j < n; j++) w(j) = W(j, i) * wt2(j); Wls r = wls(x, yadj, w); rc = std::min(rc, r.rcond); if (!r.ok) { ok = false; return DBL_MAX; }
        ld eta = 0, h = 0; for (uword a = 0; a < x.n_cols; a++) { eta += (ld)x(i, a) * r.beta(a); h += (ld)x(i, a) * r.C(a, i); } tr += h; if (fabsl(eta) > 300) rc = 0;             // beyond the range of the exponential
        ld f = expl(eta); if (!poi) f = f / (1 + f); s += (y(i) - f) * (y(i) - f);
    }
    if (cv) return (double)s; double t = (double)tr; return -2 * l + 2 * t + 2 * t * (t + 1) / (n - t - 1);
}
// ---- local collinearity --------------------------------------------------------------------------
vec lcrRow(const KV& k, const mat& x, const vec& y, const vec& w, double& rc, bool& ok, bool& tie) {
    uword n = x.n_rows, p = x.n_cols; mat xw(n, p); double lam = k.d("lam", 0); ok = true;
    for (uword a = 0; a < p; a++) { ld s = 0; for (uword i = 0; i < n; i++) { xw(i, a) = x(i, a) * w(i); s += (ld)xw(i, a) * xw(i, a); } for (uword i = 0; i < n; i++) xw(i, a) = (double)(xw(i, a) / sqrtl(s)); }
    vec s = singular(xw); double cn = s(0) / s(p - 1), th = k.d("cn", 30); if (!(s(p - 1) > 1e-7)) { rc = 0; }
    if (k.i("ladj", 0)) { if (std::fabs(cn - th) < 1e-6 * th) tie = true; if (cn > th) lam = (s(0) - th * s(p - 1)) / (th - 1); }
    vec sd(p, arma::fill::ones); for (uword a = 1; a < p; a++) { ld m = 0, v = 0; for (uword i = 0; i < n; i++) m += x(i, a); m /= n; for (uword i = 0; i < n; i++) v += (x(i, a) - m) * (x(i, a) - m); sd(a) = (double)sqrtl(v / (n - 1)); }
    mat A(p, p), I; vec b(p);
    for (uword a = 0; a < p; a++) { for (uword c = 0; c < p; c++) { ld t = 0; for (uword i = 0; i < n; i++) t += (ld)w(i) * x(i, a) / sd(a) * x(i, c) / sd(c); A(a, c) = (double)(t + (a == c ? lam : 0)); } ld t = 0; for (uword i = 0; i < n; i++) t += (ld)w(i) * x(i, a) / sd(a) * y(i); b(a) = (double)t; }
    double q = 1; if (!inverse(A, I, q)) { ok = false; return b; } rc = std::min(rc, q);
    vec r(p); for (uword a = 0; a < p; a++) { ld t = 0; for (uword c = 0; c < p; c++) t += (ld)I(a, c) * b(c); r(a) = (double)(t / sd(a)); } return r;
}
double lcrCV(const KV& k, const mat& x, const vec& y, mat W, double& rc, bool& ok, bool& tie) {
    ld s = 0; for (uword i = 0; i < x.n_rows; i++) { vec w = colv(W, i); w(i) = 0; vec b = lcrRow(k, x, y, w, rc, ok, tie); if (!ok) return DBL_MAX; ld e = y(i); for (uword a = 0; a < x.n_cols; a++) e -= (ld)x(i, a) * b(a); s += e * e; } return (double)s;
}
Exp expectLcr(const KV& k) {
    Data d = makeData(k); mat W = W0(k, d); Exp e; uword n = d.x.n_rows, p = d.x.n_cols; mat B(n, p); double t = 0, tt = 0;
    for (uword i = 0; i < n; i++) {
        bool ok; vec w = colv(W, i); vec b = lcrRow(k, d.x, d.y, w, e.rcond, ok, e.tie); if (!ok) { e.ok = false; return e; } B.row(i) = b.t();
        Wls r = wls(d.x, d.y, w); e.rcond = std::min(e.rcond, r.rcond); if (!r.ok) { e.ok = false; return e; }
        for (uword j = 0; j < n; j++) { ld s = 0; for (uword a = 0; a < p; a++) s += (ld)d.x(i, a) * r.C(a, j); if (j == i) t += (double)s; tt += (double)(s * s); }
    }
    ld rss = 0, m = 0, yss = 0; for (uword i = 0; i < n; i++) { ld q = d.y(i); for (uword a = 0; a < p; a++) q -= (ld)d.x(i, a) * B(i, a); rss += q * q; m += d.y(i); } m /= n; for (double v : d.y) yss += (v - m) * (v - m);
    double N = n, enp = 2 * t - tt, s2 = (double)rss / (N - enp), R2 = (double)(1 - rss / yss);
    e.o.add("ret", B); e.o.add("betas", B); e.o.add("bw", k.d("bw", 6));
    if (k.i("hat", 1)) { e.o.add("RSS", (double)rss); e.o.add("ENP", enp); e.o.add("EDF", N - enp); e.o.add("AIC", N * (std::log(2 * PI * s2) + 1) + 2 * (enp + 1)); e.o.add("AICc", N * std::log(2 * PI * s2) + N * (1 + enp / N) / (1 - (enp + 2) / N)); e.o.add("R2", R2); e.o.add("R2adj", 1 - (1 - R2) * (N - 1) / (N - enp)); }
    return e;
}
// ---- scalable ------------------------------------------------------------------------------------
static void nearest(const KV& k, const mat& fp, const mat& dp, uword m, std::vector<std::vector<uword>>& ix, mat& D, bool& tie) {
    ix.clear(); D.set_size(fp.n_rows, m);
    for (uword i = 0; i < fp.n_rows; i++) { vec q = distRow(k, fp, i, dp); std::vector<std::pair<double, uword>> o; for (uword j = 0; j < q.n_elem; j++) o.push_back({q(j), j}); std::sort(o.begin(), o.end()); std::vector<uword> v; for (uword j = 0; j < m; j++) { D(i, j) = o[j].first; v.push_back(o[j].second); } if (m < o.size() && o[m].first - o[m - 1].first < 1e-9) tie = true; ix.push_back(v); }
}
static double median(const mat& D, uword c) { std::vector<double> v; for (uword i = 0; i < D.n_rows; i++) v.push_back(D(i, c)); std::sort(v.begin(), v.end()); size_t n = v.size(); return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2; }
// closed-form inverses of small matrices lose this much accuracy
static double volume(const vec& s) { double v = 1; for (uword j = 1; j < s.n_elem; j++) v *= s(j) / s(0); return v; }
struct Scal { uword P, n, p, bw; mat x; vec y; KV k; };
static void moments(const Scal& s, const std::vector<uword>& ix, const vec& g, double b, double a, mat& M, vec& My, mat& M2) {
    uword p = s.p; std::vector<double> R(s.P + 1); double t = 0; for (uword q = 0; q <= s.P; q++) { R[q] = std::pow(b, (double)q + 1); t += R[q]; }
    M.zeros(p, p); My.zeros(p); M2.zeros(p, p); mat X2(p, p, arma::fill::zeros);
    for (uword q = 0; q <= s.P; q++) for (size_t j = 0; j < ix.size(); j++) {
        double w = q == 0 ? 1 : std::pow(g(j), std::pow(2.0, s.P / 2.0) / std::pow(2.0, (double)q)), r = R[q] / t; uword o = ix[j];
        for (uword c = 0; c < p; c++) { My(c) += r * w * s.x(o, c) * s.y(o); for (uword e = 0; e < p; e++) { M(c, e) += r * w * s.x(o, c) * s.x(o, e); X2(c, e) += r * r * w * w * s.x(o, c) * s.x(o, e); } }
    }
    M2 = 2 * a * M + X2;
    for (uword i = 0; i < s.n; i++) for (uword c = 0; c < p; c++) { My(c) += a * s.x(i, c) * s.y(i); for (uword e = 0; e < p; e++) { M(c, e) += a * s.x(i, c) * s.x(i, e); M2(c, e) += a * a * s.x(i, c) * s.x(i, e); } }
}
static Scal scal(const KV& k, const Data& d) { Scal s; s.P = k.i("poly", 4); s.n = d.x.n_rows; s.p = d.x.n_cols; s.x = d.x; s.y = d.y; s.k = k; uword b = (uword)k.d("bw", 6); s.bw = b >= s.n ? s.n - 1 : b; return s; }
static vec expo(const KV& k, const mat& D, uword i, double band) { vec g(D.n_cols); for (uword j = 0; j < D.n_cols; j++) { double q = D(i, j) / band; g(j) = std::exp(k.i("kernel", 0) == 0 ? -q * q : -q); } return g; }
static double bandOf(const KV& k, const mat& D, uword bw) { uword c = std::min<uword>(50, std::min<uword>(bw, D.n_cols)) - 1; return median(D, c) / (k.i("kernel", 0) == 0 ? std::sqrt(3.0) : 3.0); }
double scalCrit(const KV& k, double b, double a, bool& ok, double& rc) {
    Data d = makeData(k); Scal s = scal(k, d); bool cv = k.s("sel", "cv") == "cv"; std::vector<std::vector<uword>> ix; mat D; bool tie = false; ok = true;
    uword nb = s.bw; if (cv) nb--;
    nearest(k, d.coords, d.coords, nb, ix, D, tie); if (tie) rc = 0;
    if (!cv) { mat E(s.n, nb + 1, arma::fill::zeros); for (uword i = 0; i < s.n; i++) { for (uword j = 0; j < nb; j++) E(i, j + 1) = D(i, j); ix[i].insert(ix[i].begin(), i); } D = E; }
    double band = bandOf(k, D, s.bw); double sse = 0, tr = 0;
    for (uword i = 0; i < s.n; i++) {
        mat M, M2, I; vec My; moments(s, ix[i], expo(k, D, i, band), b, a, M, My, M2); { vec sv = singular(M); rc = std::min(rc, volume(sv)); } if (!inverse(M, I, rc)) { ok = false; return DBL_MAX; }
        double f = 0; for (uword c = 0; c < s.p; c++) for (uword e = 0; e < s.p; e++) f += s.x(i, c) * I(c, e) * My(e); sse += (s.y(i) - f) * (s.y(i) - f);
        mat Q = I * I.t(); for (uword c = 0; c < s.p; c++) for (uword e = 0; e < s.p; e++) tr += s.x(i, c) * Q(c, e) * s.x(i, e);
    }
    double N = s.n; if (!cv && std::fabs(N - 2 - tr) < 1e-4 * N) rc = 0; return cv ? sse : N * std::log(sse / N) + N * std::log(2 * PI) + N * (N + tr) / (N - 2 - tr);
}
// the documented simplex search over scale and penalty, on the criterion as defined
struct ScalSearch { Scal s; bool cv, shaky = false; int noise = 0; unsigned calls = 0; std::vector<std::vector<mat>> M; std::vector<std::vector<vec>> My; mat XX; vec Xy; };
static double scalSearchCrit(const gsl_vector* v, void* q) {
    ScalSearch& z = *(ScalSearch*)q; double b = std::pow(gsl_vector_get(v, 0), 2), a = std::pow(gsl_vector_get(v, 1), 2), t = 0; uword n = z.s.n, p = z.s.p, P = z.s.P; std::vector<double> R(P + 1); for (uword j = 0; j <= P; j++) { R[j] = std::pow(b, (double)j + 1); t += R[j]; }
    if (!(t > 0) || !std::isfinite(t)) { z.shaky = true; return DBL_MAX; }
    double sse = 0, tr = 0, rc = 1, vol = 1;
    for (uword i = 0; i < n; i++) {
        mat M = a * z.XX, I; vec My = a * z.Xy; for (uword j = 0; j <= P; j++) { M += R[j] / t * z.M[i][j]; My += R[j] / t * z.My[i][j]; }
        if (!inverse(M, I, rc) || rc < 1e-7) { z.shaky = true; return DBL_MAX; }
        if (!z.cv) { double dt = 1; vec sv = singular(M); for (double x : sv) dt *= x; vol = std::min(vol, volume(sv)); if (dt < 1e-9) { z.shaky = true; return DBL_MAX; } }
        vec xi = z.s.x.row(i).t(); double f = arma::dot(xi, I * My); sse += (z.s.y(i) - f) * (z.s.y(i) - f); if (!z.cv) { mat Q = I * I.t(); tr += arma::dot(xi, Q * xi); }
    }
    double N = n; if (!z.cv && std::fabs(N - 2 - tr) < 1e-4 * N) z.shaky = true; double c = z.cv ? sse : N * std::log(sse / N) + N * std::log(2 * PI) + N * (N + tr) / (N - 2 - tr); (void)p;
    if (!std::isfinite(c)) { z.shaky = true; return DBL_MAX; }
    if (z.noise) { unsigned h = (z.calls++ * 2654435761u + z.noise * 40503u); c += ((int)(h >> 16) % 1000 / 500.0 - 1) * std::max(1e-12, 1e-15 / (z.cv ? rc : p <= 4 ? vol * vol : rc * rc)) * (1e-3 + std::fabs(c)); }
    return c;
}
bool scalSearch(const KV& k, double& b, double& a, bool& converged) {
    Data d = makeData(k); ScalSearch z; z.s = scal(k, d); z.cv = k.s("sel", "cv") == "cv"; std::vector<std::vector<uword>> ix; mat D; bool tie = false; Scal& s = z.s;
    uword nb = s.bw; if (z.cv) nb--; nearest(k, d.coords, d.coords, nb, ix, D, tie); if (tie) return false;
    if (!z.cv) { mat E(s.n, nb + 1, arma::fill::zeros); for (uword i = 0; i < s.n; i++) { for (uword j = 0; j < nb; j++) E(i, j + 1) = D(i, j); ix[i].insert(ix[i].begin(), i); } D = E; }
    double band = bandOf(k, D, s.bw); z.XX = s.x.t() * s.x; z.Xy = s.x.t() * s.y;
    for (uword i = 0; i < s.n; i++) {
        vec g = expo(k, D, i, band); std::vector<mat> M; std::vector<vec> V;
        for (uword q = 0; q <= s.P; q++) { mat m(s.p, s.p, arma::fill::zeros); vec v(s.p, arma::fill::zeros); for (size_t j = 0; j < ix[i].size(); j++) { double w = q == 0 ? 1 : std::pow(g(j), std::pow(2.0, s.P / 2.0) / std::pow(2.0, (double)q)); vec xo = s.x.row(ix[i][j]).t(); m += w * xo * xo.t(); v += w * xo * s.y(ix[i][j]); } M.push_back(m); V.push_back(v); }
        z.M.push_back(M); z.My.push_back(V);
    }
    double lo[2] = {0, 0}, hi[2] = {0, 0}; gsl_set_error_handler_off();
    for (int r = 0; r < 4; r++) {
        z.noise = r; z.calls = 0; gsl_vector *t = gsl_vector_alloc(2), *st = gsl_vector_alloc(2); gsl_vector_set(t, 0, 1.0); gsl_vector_set(t, 1, 0.01); gsl_vector_set_all(st, 0.01);
        gsl_multimin_function f = {scalSearchCrit, 2, &z}; auto* m = gsl_multimin_fminimizer_alloc(gsl_multimin_fminimizer_nmsimplex, 2); int rc = gsl_multimin_fminimizer_set(m, &f, t, st), it = 0; bool c = false, fail = rc != 0;
        while (!fail && !c && it++ < 500) { if (gsl_multimin_fminimizer_iterate(m)) { fail = true; break; } c = gsl_multimin_test_size(gsl_multimin_fminimizer_size(m), 1e-6) == 0; }
        double x = std::fabs(gsl_vector_get(m->x, 0)), y = std::fabs(gsl_vector_get(m->x, 1)); gsl_multimin_fminimizer_free(m); gsl_vector_free(t); gsl_vector_free(st); if (fail || z.shaky) return false;
        if (r == 0) { b = x; a = y; converged = c; lo[0] = hi[0] = x; lo[1] = hi[1] = y; } else { if (c != converged) return false; lo[0] = std::min(lo[0], x); hi[0] = std::max(hi[0], x); lo[1] = std::min(lo[1], y); hi[1] = std::max(hi[1], y); }
    }
    return hi[0] - lo[0] < 1e-5 * (1 + b) && hi[1] - lo[1] < 1e-5 * (1 + a);
}
Exp expectScalAt(const KV& k, double b, double a) {
    Data d = makeData(k); Scal s = scal(k, d); Exp e; std::vector<std::vector<uword>> ix; mat D; nearest(k, d.coords, d.coords, s.bw, ix, D, e.tie);
    double band = bandOf(k, D, s.bw); mat B(s.n, s.p); double t = 0, tt = 0, rss = 0, m = 0, yss = 0;
    for (uword i = 0; i < s.n; i++) {
        mat M, M2, I; vec My; moments(s, ix[i], expo(k, D, i, band), b, a, M, My, M2); { vec sv = singular(M); e.rcond = std::min(e.rcond, volume(sv)); } if (!inverse(M, I, e.rcond)) { e.ok = false; return e; }
        vec be = I * My; B.row(i) = be.t(); mat Q = I * I.t(); vec xi = s.x.row(i).t(), u = Q * xi; t += arma::dot(xi, u); vec v = M2 * u; tt += arma::dot(u, v); double f = arma::dot(xi, be); rss += (s.y(i) - f) * (s.y(i) - f); m += s.y(i);
    }
    m /= s.n; for (double v : s.y) yss += (v - m) * (v - m);
    double N = s.n, base = N * std::log(rss / N) + N * std::log(2 * PI), R2 = 1 - rss / yss, edf = N - 2 * t + tt;
    e.o.add("ret", B); e.o.add("betas", B); e.o.add("bw", (double)s.bw < k.d("bw", 6) && k.d("bw", 6) >= N ? (double)s.bw : k.d("bw", 6));
    if (k.i("hat", 1)) { e.o.add("RSS", rss); e.o.add("AIC", base + N + t); e.o.add("AICc", base + N * (N + t) / (N - 2 - t)); e.o.add("ENP", 2 * t - tt); e.o.add("EDF", edf); e.o.add("R2", R2); e.o.add("R2adj", 1 - (1 - R2) * (N - 1) / (edf - 1)); }
    return e;
}
Exp expectScal(const KV&) { Exp e; e.ok = false; e.why = "needs the parameters found"; return e; }
// ---- summary statistics --------------------------------------------------------------------------
Exp expectGwss(const KV& k) {
    Data d = makeData(k.with("icpt", 0)); mat W = W0(k, d); Exp e; uword n = d.x.n_rows, p = d.x.n_cols; mat mean(n, p), var(n, p), sd(n, p), sk(n, p), cv(n, p), med(n, p), iqr(n, p), qi(n, p);
    bool avg = k.s("mode", "avg") == "avg", first = k.i("first", 0) != 0; uword nc = first ? p - 1 : p * (p - 1) / 2; mat cov(n, nc), cor(n, nc), sc(n, nc); bool qtie = false;
    mat rk(n, p); for (uword a = 0; a < p; a++) for (uword i = 0; i < n; i++) { double r = 0.5; for (uword j = 0; j < n; j++) r += d.x(j, a) < d.x(i, a) ? 1 : d.x(j, a) == d.x(i, a) ? 0.5 : 0; rk(i, a) = r; }   // ties share their mean rank
    for (uword i = 0; i < n; i++) {
        std::vector<ld> w(n); ld sw = 0, w2 = 0; for (uword j = 0; j < n; j++) sw += W(j, i); for (uword j = 0; j < n; j++) { w[j] = W(j, i) / sw; w2 += w[j] * w[j]; }
        // equal weights on a power-of-two number of points: every sum of them is exact
        bool exact = true; int cnt = 0; for (uword j = 0; j < n; j++) { if (W(j, i) == 1) cnt++; else if (W(j, i) != 0) exact = false; } exact = exact && cnt && !(cnt & (cnt - 1));
        auto wmean = [&](const mat& x, uword a) { ld s = 0; for (uword j = 0; j < n; j++) s += w[j] * x(j, a); return s; };
        auto wcov = [&](const mat& x, uword a, uword b) { ld s = 0, ma = wmean(x, a), mb = wmean(x, b); for (uword j = 0; j < n; j++) s += w[j] * (x(j, a) - ma) * (x(j, b) - mb); return s; };
        for (uword a = 0; a < p; a++) {
            ld m = wmean(d.x, a), v = wcov(d.x, a, a), t = 0; for (uword j = 0; j < n; j++) t += w[j] * powl(d.x(j, a) - m, 3);
            mean(i, a) = (double)m; var(i, a) = (double)v; sd(i, a) = (double)sqrtl(v); sk(i, a) = (double)(t / powl(v, 1.5L)); cv(i, a) = (double)(sqrtl(v) / m); if (v < 1e-8L) e.tie = true;
            std::vector<std::pair<double, uword>> o; for (uword j = 0; j < n; j++) o.push_back({d.x(j, a), j}); std::sort(o.begin(), o.end()); double q[3];
            for (int z = 0; z < 3; z++) { ld c = 0, t2 = 0.25L * (z + 1); q[z] = o[n - 1].first; for (uword j = 0; j < n; j++) { c += w[o[j].second]; if (fabsl(c - t2) < 1e-12L && !exact) qtie = true; if (c > t2) { q[z] = o[j ? j - 1 : 0].first; if ((j && o[j - 1].first == o[j].first) || (j + 1 < n && o[j + 1].first == o[j].first)) qtie = true; break; } } }
            med(i, a) = q[1]; iqr(i, a) = q[2] - q[0]; qi(i, a) = (2 * q[1] - q[2] - q[0]) / (q[2] - q[0]);
        }
        uword t = 0; if (1 - w2 < 1e-6L) e.tie = true;
        for (uword a = 0; a < (first ? 1 : p - 1); a++) for (uword b = a + 1; b < p; b++) { cov(i, t) = (double)(wcov(d.x, a, b) / (1 - w2)); cor(i, t) = (double)(wcov(d.x, a, b) / sqrtl(wcov(d.x, a, a) * wcov(d.x, b, b))); sc(i, t) = (double)(wcov(rk, a, b) / sqrtl(wcov(rk, a, a) * wcov(rk, b, b))); t++; }
    }
    e.o.add("mean", mean); e.o.add("var", var);
    if (avg) { e.o.add("sdev", sd); e.o.add("skew", sk); e.o.add("cv", cv); if (k.i("quant") && !qtie) { e.o.add("median", med); e.o.add("iqr", iqr); e.o.add("qi", qi); } }
    else { e.o.add("cov", cov); e.o.add("cor", cor); e.o.add("scor", sc); }
    return e;
}
// ---- principal components ------------------------------------------------------------------------
// loadings are compared up to the sign of each component: Exp holds them with a non-negative first dominant entry
Exp expectGwpca(const KV& k) {
    Data d = makeData(k.with("icpt", 0)); mat W = W0(k, d); Exp e; uword n = d.x.n_rows, p = d.x.n_cols, K = k.i("k", 2); mat pv(n, K), sd(n, p); cube L(n, p, K);
    for (uword i = 0; i < n; i++) {
        ld sw = 0; for (uword j = 0; j < n; j++) sw += W(j, i); mat c(n, p), V;
        for (uword a = 0; a < p; a++) { ld m = 0; for (uword j = 0; j < n; j++) m += (ld)W(j, i) * d.x(j, a); m /= sw; for (uword j = 0; j < n; j++) c(j, a) = (double)((d.x(j, a) - m) * sqrtl((ld)W(j, i))); }
        vec s = singular(c, &V); double t = 0; for (double v : s) t += v * v;
        for (uword a = 0; a < p; a++) sd(i, a) = s(a) / (double)sqrtl(sw);
        // a component whose variance equals a neighbouring one's has no particular direction
        for (uword q = 0; q < K; q++) { pv(i, q) = s(q) * s(q) / t * 100; bool own = (q == 0 || s(q - 1) - s(q) > 1e-4 * s(0)) && (q + 1 >= p || s(q) - s(q + 1) > 1e-4 * s(0)); for (uword a = 0; a < p; a++) L(i, a, q) = own ? V(a, q) : arma::datum::nan; }
        if (!(sw > 0) || !(t > 1e-12)) e.tie = true;
    }
    e.o.add("pv", pv); e.o.add("sdev", sd); e.o.add("loadings", L); return e;
}
// ---- discriminant analysis -----------------------------------------------------------------------
Exp expectGwda(const KV& k) {
    Data d = makeData(k.with("icpt", 0)); mat W = W0(k, d); Exp e; uword n = d.x.n_rows, p = d.x.n_cols; for (uword i = 0; i < n; i++) W(i, i) = 0;
    std::vector<std::string> lev; for (auto& g : d.groups) if (std::find(lev.begin(), lev.end(), g) == lev.end()) lev.push_back(g);
    uword m = lev.size(); mat score(n, m), probs(n, m), grp(n, 1), pmax(n, 1), ent(n, 1); bool qda = k.i("wqda", 0) != 0; double all = 0; for (double v : W) all += v; bool hp = k.i("hprior", 1), hm = k.i("hmean", 1), hc = k.i("hcov", 1); int right = 0;
    for (uword i = 0; i < n; i++) {
        std::vector<mat> cov(m); std::vector<vec> mu(m); std::vector<double> pri(m), cnt(m, 0); mat pool(p, p, arma::fill::zeros); double nt = 0;
        for (uword g = 0; g < m; g++) {
            ld sw = 0, s2 = 0, sm = 0, sp = 0; vec mm(p, arma::fill::zeros), cm(p, arma::fill::zeros);
            for (uword j = 0; j < n; j++) if (d.groups[j] == lev[g]) { cnt[g]++; double wc = hc ? W(j, i) : 1, wmn = hm ? W(j, i) : 1; sw += wc; sm += wmn; sp += hp ? W(j, i) : 1; for (uword a = 0; a < p; a++) { mm(a) += wmn * d.x(j, a); cm(a) += wc * d.x(j, a); } }
            if (sm < 1e-7L || sw < 1e-7L || sp < 1e-7L) { e.ok = false; return e; } mm /= (double)sm; cm /= (double)sw; mat c(p, p, arma::fill::zeros);
            for (uword j = 0; j < n; j++) if (d.groups[j] == lev[g]) { double w = (hc ? W(j, i) : 1) / (double)sw; s2 += (ld)w * w; for (uword a = 0; a < p; a++) for (uword b = 0; b < p; b++) c(a, b) += w * (d.x(j, a) - cm(a)) * (d.x(j, b) - cm(b)); }
            c /= (double)(1 - s2); if (1 - s2 < 1e-6L) e.ok = false; cov[g] = c; mu[g] = mm; pri[g] = (double)(sp / (hp ? all : (double)n * n)); pool += cnt[g] * c; nt += cnt[g];
        }
        pool /= nt;
        for (uword g = 0; g < m; g++) {
            const mat& c = qda ? cov[g] : pool; mat I; if (!inverse(c, I, e.rcond)) { e.ok = false; return e; }
            vec z(p); for (uword a = 0; a < p; a++) z(a) = d.x(i, a) - mu[g](a); double q = 0; for (uword a = 0; a < p; a++) for (uword b = 0; b < p; b++) q += z(a) * I(a, b) * z(b);
            score(i, g) = (double)(m / 2) * std::log(singular(c)(0)) + 0.5 * q - std::log(pri[g]);
        }
        uword best = 0; for (uword g = 1; g < m; g++) if (score(i, g) < score(i, best)) best = g; for (uword g = 0; g < m; g++) if (g != best && score(i, g) - score(i, best) < 1e-6) e.tie = true;
        double s = 0, h = 0, mx = 0; for (uword g = 0; g < m; g++) s += std::exp(score(i, best) - score(i, g)); for (uword g = 0; g < m; g++) { double q = probs(i, g) = std::exp(score(i, best) - score(i, g)) / s; mx = std::max(mx, q); if (q > 0) h -= q * std::log2(q); }
        pmax(i) = mx; ent(i) = h / std::log2((double)m); grp(i) = labelCode(lev[best]); right += lev[best] == d.groups[i];
    }
    e.o.add("res", score); e.o.add("probs", probs); e.o.add("pmax", pmax); e.o.add("entropy", ent); e.o.add("group", grp); e.o.add("rate", (double)right / n); return e;
}
// ---- prediction ----------------------------------------------------------------------------------
Exp expectPred(const KV& k, const mat& locs, double b, double a) {
    Data d = makeData(k); Exp e; std::string al = k.s("algo"); mat Wp = weightMatrix(k, k.d("bw", 6), locs, d.coords);
    if (al == "gwr" || al == "robust") { e.o.add("pred", coef(d.x, d.y, Wp, e.ok, e.rcond)); }
    else if (al == "lcr") { mat B(locs.n_rows, d.x.n_cols); for (uword i = 0; i < locs.n_rows; i++) { bool ok; vec r = lcrRow(k, d.x, d.y, colv(Wp, i), e.rcond, ok, e.tie); if (!ok) { e.ok = false; return e; } B.row(i) = r.t(); } e.o.add("pred", B); }
    else if (al == "ggwr") { Glm g = glmFit(k, d.x, d.y, W0(k, d), Wp); e.ok = g.ok; e.rcond = g.rcond; for (double v : g.wt2) if (v < 1e-6 || v > 1e6) e.ok = false; e.o.add("pred", g.betas); }
    else if (al == "scal") {
        Scal s = scal(k, d); std::vector<std::vector<uword>> ix; mat D; nearest(k, d.coords, d.coords, s.bw, ix, D, e.tie); double band = bandOf(k, D, s.bw); nearest(k, locs, d.coords, s.bw, ix, D, e.tie); mat B(locs.n_rows, s.p);
        for (uword i = 0; i < locs.n_rows; i++) { mat M, M2, I; vec My; moments(s, ix[i], expo(k, D, i, band), b, a, M, My, M2); { vec sv = singular(M); e.rcond = std::min(e.rcond, volume(sv)); } if (!inverse(M, I, e.rcond)) { e.ok = false; return e; } vec be = I * My; B.row(i) = be.t(); }
        e.o.add("pred", B);
    } else { e.ok = false; e.why = "no model"; }
    return e;
}
bool wellPosed(const KV& k0, double rc) {
    KV k = k0.without("sel").without("var").without("autolam"); std::string ops = k.s("ops", "F");
    if (k.s("algo") == "scal") return true;
    if (ops.find('F') != std::string::npos || ops.empty()) { Exp e = expect(k); if (!e.ok || e.tie || e.rcond < rc) return false; }
    Data d = makeData(k);
    if (ops.find('P') != std::string::npos && k.s("algo") != "gtwr") { Exp e = expectPred(k, d.pred); if (!e.ok || e.tie || e.rcond < rc) return false; }
    if (ops.find('Q') != std::string::npos && k.s("algo") != "gtwr") { Exp e = expectPred(k, d.coords); if (!e.ok || e.tie || e.rcond < rc) return false; }
    return true;
}
}
