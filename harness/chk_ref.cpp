// C09..C19: every algorithm against an executable specification, over exhaustively enumerated tables
// of configurations, serial, OpenMP and (where offered) distributed.
#include "common.h"
#include "scen.h"
#include "ref.h"
#include <algorithm>
using std::string; using std::vector; using namespace arma;

static Out runMpi(const KV& k, int np) {
    vector<Out> outs(np); rt::mpiCfg.np = np; rt::mpiCfg.synchronous = false; rt::mpiCfg.prefix.clear();
    rt::mpiRun([&](int rank) { Env e; outs[rank] = runScenario(k, e); });
    Out o = outs[0]; if (rt::mpiStats.deadlock) { o.threw = true; o.exc = "@deadlock"; } return o;
}
static void signNorm(const KV& k, Out& o) {                     // loadings up to the sign of each component
    auto it = o.v.find("loadings"); if (it == o.v.end()) return; int n = k.i("n"), K = k.i("k", 2), p = k.i("p"); mat& m = it->second; if ((int)m.n_elem != n * p * K) return;
    for (int q = 0; q < K; q++) for (int i = 0; i < n; i++) {
        int b = 0; for (int a = 1; a < p; a++) if (std::fabs(m(i + n * a + n * p * q)) > std::fabs(m(i + n * b + n * p * q)) * (1 + 1e-6)) b = a;
        if (m(i + n * b + n * p * q) < 0) for (int a = 0; a < p; a++) m(i + n * a + n * p * q) *= -1;
    }
}
// criterion of the specification at a bandwidth
static double critAt(const KV& k, double bw, bool& ok, double& rc, bool& tie) {
    string a = k.s("algo"); KV q = a == "gtwr" ? k.with("dist", "st") : k; Data d = makeData(q); ok = true; rc = 1; bool cv = k.s("sel") == "cv";
    mat W = a == "gtwr" ? ref::weightMatrix(q, bw, d.coords, d.coords, &d.times, &d.times) : ref::weightMatrix(q, bw, d.coords, d.coords);
    if (a == "ggwr") return ref::ggwrCrit(k, d.x, d.y, W, cv, ok, rc);
    if (a == "lcr") return ref::lcrCV(k, d.x, d.y, W, rc, ok, tie);
    return cv ? ref::critCV(d.x, d.y, W, ok, rc) : ref::critAICc(d.x, d.y, W, ok, rc);
}
static string g12(double v) { return fmt("%.12g", v); }
// judge a run; "" when it conforms
static const double RC = 1e-9;
static bool critOff(bool cv, double c, double got, double rc, const vec& y) { double q = 1e-14 / rc / rc, yy = dot(y, y); return !(std::fabs(c - got) <= (cv ? 1e-6 * std::fabs(c) + q * std::sqrt(std::fabs(c) * yy) + q * q * yy : (1e-6 + q) * (1 + std::fabs(c)))); }
// the iterations the monitor was told about: criterion of each, and every bandwidth chosen with what was concluded from it
static string backfitOff(const mat& want, const Out& got, Res& r) {
    auto it = got.v.find("backfit"); if (it == got.v.end()) return ""; const mat& g = it->second; r.ctr["iterations_compared"] += want.n_rows;
    if (g.n_rows != want.n_rows) return fmt("%d steps of the iterations are reported, the specification takes %d", (int)g.n_rows, (int)want.n_rows);
    for (uword i = 0; i < want.n_rows; i++) {
        if (g(i, 0) != want(i, 0)) return fmt("step %d of the iterations concerns %g instead of %g", (int)i, g(i, 0), want(i, 0));
        if (want(i, 0) < 0) { double f = std::min(want(i, 2), want(i, 3)); if (!(std::fabs(g(i, 1) - want(i, 1)) <= 2e-5 * std::max(1.0, std::max(want(i, 1), f)))) return fmt("the convergence measure of iteration %g is reported as %.8g, it is %.8g", want(i, 4), g(i, 1), want(i, 1)); }
        else for (int c = 1; c < 5; c++) if (!(std::fabs(g(i, c) - want(i, c)) <= 2e-3 * (1 + std::fabs(want(i, c))))) return fmt("choosing the bandwidth of term %g reports %g,%g,%g,%g instead of %g,%g,%g,%g", g(i, 0), g(i, 1), g(i, 2), g(i, 3), g(i, 4), want(i, 1), want(i, 2), want(i, 3), want(i, 4));
    }
    return "";
}
static void backfit(const TeleState& t, Out& o) {
    vector<double> v; int it = 0; for (auto& e : t.events) if (e.kind == 0) {
        static const string A = "#back-fitting #variable-bandwidth-selection ", B = "#back-fitting #backfitting-criterion ";
        if (e.msg.compare(0, B.size(), B) == 0) for (double q : {-1.0, atof(e.msg.c_str() + B.size()), 0.0, 0.0, (double)++it}) v.push_back(q);
        if (e.msg.compare(0, A.size(), A) == 0) { vector<string> f(1); for (char c : e.msg.substr(A.size())) if (c == ',') f.push_back(""); else f.back() += c; if (f.size() < 5) continue; for (int i = 0; i < 4; i++) v.push_back(atof(f[i].c_str())); v.push_back(f[4] == "false" ? -1 : f[4] == "true" ? -2 : f.size() > 5 ? atof(f[5].c_str()) : -3); }
    }
    mat m(5, v.size() / 5); for (uword i = 0; i < m.n_elem; i++) m(i) = v[i]; o.add("backfit", m.t());
}
static string judge(const KV& k0, const Out& got, Res& r) {
    string only = k0.s("only");
    KV k = k0; string a = k.s("algo"); bool sel = k.s("sel", "no") != "no";
    if (got.threw) {
        if (!got.exc.empty() && got.exc[0] == '@') return got.exc;
        if (a == "gwdr" && sel && !k.i("var")) { vec w; bool conv; if (ref::gwdrSearch(k, w, conv) && conv) return "failed with \"" + got.exc + "\" although the bandwidth search converges"; }
        if (a == "scal" && k.i("n") <= 30) { double wb, wa; bool conv; if (ref::scalSearch(k, wb, wa, conv) && conv) return "failed with \"" + got.exc + "\" although the search for scale and penalty converges"; }
        if (a == "mgwr" && sel) { auto e = ref::expect(k); if (e.ok && e.rcond > RC && !e.tie) return "failed with \"" + got.exc + "\" on a well-posed problem"; }
        // an exception is right only if the specification has no answer either
        if (a == "gwr" && !sel && !k.i("var")) { auto e = ref::expect(k); if (e.ok && e.rcond > RC && !e.tie) return "failed with \"" + got.exc + "\" on a well-posed problem"; }
        else if (!sel && !k.i("var")) { auto e = ref::expect(k); if (e.ok && e.rcond > RC && !e.tie) return "failed with \"" + got.exc + "\" on a well-posed problem"; }
        else if (!sel && k.i("var") && a != "mgwr") { auto e = ref::expect(k.without("var")); if (e.ok && e.rcond > RC && !e.tie) return "failed with \"" + got.exc + "\" although every candidate model can be fitted"; }
        else if (sel && !k.i("var") && !k.i("autolam") && (a == "gwr" || a == "robust" || a == "ggwr" || a == "lcr" || (a == "gtwr" && k.i("adaptive", 1)))) {
            bool ad = k.i("adaptive", 1) != 0, shaky = false; Data d = makeData(k); double lo = ad ? 20 : 0, hi = ad ? (double)d.coords.n_rows : ref::maxDist(k, d.coords); if (a == "gwr" || a == "robust") { lo = k.d("lo", lo); hi = k.d("hi", hi); }
            auto g = ref::golden(lo, hi, ad, [&](double b) { bool ok, tie = false; double rc; double c = critAt(k, b, ok, rc, tie); if (rc < 1e-6 || tie || !ok || !std::isfinite(c)) shaky = true; return ok && std::isfinite(c) ? c : DBL_MAX; });
            if (!shaky && !g.failed) { auto e = ref::expect(k.without("sel").with("bw", fmt("%.17g", g.x))); if (e.ok && e.rcond > RC && !e.tie) return "failed with \"" + got.exc + "\" although the bandwidth search has an answer"; }
        }
        r.ctr["no_answer"]++; return "";
    }
    if (got.v.count("status") && got.v.at("status")(0) != 0) return "ended with status " + g12(got.v.at("status")(0)) + " although nothing was cancelled";
    if (k.i("var")) {
        // forward selection replayed on the specification's criterion
        Data d = makeData(k); bool icpt = k.i("icpt", 1); int p = d.x.n_cols, f0 = icpt ? 1 : 0; double rc = 1; bool tie = false; double thd = k.d("thd", 3);
        vector<int> cur, rest; for (int i = f0; i < p; i++) rest.push_back(i);
        vector<std::pair<string, double>> list; vector<vector<int>> mods; mat Wl; 
        if (a == "gwdr" && !sel) { Wl.ones(d.x.n_rows, d.x.n_rows); for (int j = 0; j < k.i("dims", 2); j++) { vec c = j < 2 ? vec(d.coords.col(j)) : d.times; for (uword f = 0; f < d.x.n_rows; f++) { vec q(d.x.n_rows); for (uword i = 0; i < q.n_elem; i++) q(i) = std::fabs(c(i) - c(f)); vec w = ref::kernel(q, k.d(j == 0 ? "bw" : "bw2", 6), perVar(k, j).i("adaptive", 1) != 0, perVar(k, j).i("kernel", 0)); for (uword i = 0; i < q.n_elem; i++) Wl(i, f) *= w(i); } } }
        else Wl.ones(d.x.n_rows, d.x.n_rows);
        while (!rest.empty()) {
            vector<std::tuple<double, vector<int>, int>> round;
            for (int v : rest) { vector<int> c = cur; c.push_back(v); vector<uword> ix; if (icpt) ix.push_back(0); for (int q : c) ix.push_back(q); bool ok; double cr = ref::critAICc(d.x.cols(uvec(ix)), d.y, Wl, ok, rc); if (!ok) tie = true; round.push_back({cr, c, v}); }
            auto best = *std::min_element(round.begin(), round.end(), [](auto& x, auto& y) { return std::get<0>(x) < std::get<0>(y); });
            for (auto& q : round) if (std::get<2>(q) != std::get<2>(best) && std::get<0>(q) - std::get<0>(best) < 1e-6) tie = true;
            std::sort(round.begin(), round.end(), [](auto& x, auto& y) { return std::get<0>(x) > std::get<0>(y); });
            for (auto& q : round) { double code = 0; for (int z : std::get<1>(q)) code = code * 10 + z; list.push_back({g12(code), std::get<0>(q)}); mods.push_back(std::get<1>(q)); }
            cur.push_back(std::get<2>(best)); rest.erase(std::find(rest.begin(), rest.end(), std::get<2>(best)));
        }
        int pick = (int)mods.size() - 1; bool found = false;
        for (int i = (int)mods.size() - 1; i > 0 && !found; i--) { double df = list[i - 1].second - list[i].second; if (std::fabs(df - thd) < 1e-6) tie = true; if (df >= thd) { pick = i; found = true; } }
        if (!found) pick = -1;
        if (rc < RC || tie) { r.ctr["no_verdict"]++; return ""; }
        const mat& L = got.v.at("varlist"); if (L.n_rows != list.size()) return fmt("variable selection reports %d models, %d were to be compared", (int)L.n_rows, (int)list.size());
        for (size_t i = 0; i < list.size(); i++) { if (g12(L(i, 0)) != list[i].first) return fmt("model %d of the variable selection is ", (int)i) + g12(L(i, 0)) + " expected " + list[i].first; if (std::fabs(L(i, 1) - list[i].second) > 1e-6 * (1 + std::fabs(list[i].second))) return "criterion of model " + list[i].first + " is " + g12(L(i, 1)) + " expected " + g12(list[i].second); }
        const mat& sv = got.v.at("vars"); vector<int> chosen; for (uword i = 0; i < sv.n_elem; i++) chosen.push_back((int)sv(i));
        if (pick >= 0 && chosen != mods[pick]) return "the selected variables are not the model with the last improvement above the threshold";
        if (pick < 0 && std::find(mods.begin(), mods.end(), chosen) == mods.end()) return "the selected variables are none of the compared models";
        // continue with the reduced data: key "keep" is understood by makeData
        string keep = icpt ? "0" : ""; for (int v : chosen) keep += (keep.empty() ? "" : ".") + std::to_string(v); k = k.without("var").with("keep", keep); if (only == "var") return "";
    }
    if (k.i("probe")) {
        const mat& v = got.v.at("probe"); int dims = k.i("dims", 2);
        for (int t = 0; t < 2; t++) for (uword q = 0; q < v.n_rows; q++) { vec bw(dims); for (int j = 0; j < dims; j++) bw(j) = k.d(j == 0 ? "bw" : "bw2", 6) * probeFactor(q, j); bool ok; double rc, c = ref::gwdrCrit(k, bw, t == 0, ok, rc); if (!ok || rc < 1e-6 || !std::isfinite(c)) { r.ctr["crit_no_verdict"]++; continue; } r.ctr["criteria_compared"]++; if (critOff(t == 0, c, v(q, t), rc, makeData(k).y)) return fmt("%s criterion at probe %d is ", t ? "AIC" : "CV", (int)q) + g12(v(q, t)) + " expected " + g12(c); }
    }
    KV kc = k;                                                  // the bandwidth is searched before the space-time mixing
    if (a == "gtwr" && k.i("autolam")) {
        double lam = got.v.at("lambda")(0), bwl = got.v.at("bw")(0); if (!(lam >= 0 && lam <= 1)) return "a space-time mixing of " + g12(lam) + " was selected";
        bool shaky = false; auto f = [&](double l) { KV q = k.with("dist", "st").with("lambda", fmt("%.17g", l)); Data d = makeData(q); bool ok = true; double rc = 1; mat W = ref::weightMatrix(q, bwl, d.coords, d.coords, &d.times, &d.times), b = ref::coef(d.x, d.y, W, ok, rc); if (!ok || rc < 1e-9) { shaky = true; return 0.0; } double rss = 0, yss = 0, my = mean(d.y); for (uword i = 0; i < d.y.n_elem; i++) { double z = d.y(i) - my, q2 = d.y(i); for (uword c = 0; c < d.x.n_cols; c++) q2 -= d.x(i, c) * b(i, c); rss += q2 * q2; yss += z * z; } return 1 - rss / yss; };
        double ra = (std::sqrt(5.0) - 1) / 2, A = 0, B = 1, P = 1 - ra, Q = ra, fa = f(A), fb = f(B), fp = f(P), fq = f(Q); int it = 0; double slack = 1e-6;
        while (std::fabs(fa - fb) >= 1e-10 && it++ < 100) { if (std::fabs(fp - fq) < 1e-9) { slack = B - A; break; } double st = 0; if (fp > fq) { B = Q; fb = fq; Q = P; fq = fp; st = B - A; P = A + (1 - ra) * st; fp = f(P); } else { A = P; fa = fp; P = Q; fp = fq; st = B - A; Q = A + ra * st; fq = f(Q); } }
        if (shaky) { r.ctr["no_verdict"]++; return ""; }
        r.ctr["lambda_searches_compared"]++; if (std::fabs(lam - (A + B) / 2) > (B - A) / 2 + slack + 1e-4) return "a space-time mixing of " + g12(lam) + " was selected, golden section on the R squared gives " + g12((A + B) / 2);
        k = k.without("autolam").with("lambda", fmt("%.17g", lam));
    }
    ref::Exp e;
    if (a == "scal") {
        e = ref::expectScalAt(k, got.v.at("scale")(0), got.v.at("penalty")(0));
        bool ok; double rc = 1; double c = ref::scalCrit(k, got.v.at("scale")(0), got.v.at("penalty")(0), ok, rc); if (getenv("MC_VERBOSE")) fprintf(stderr, "scal rcond %g crit rcond %g\n", e.rcond, rc); if (ok && rc > 1e-5 && !e.tie && std::isfinite(c)) { e.o.add("cv", c); e.rcond = std::min(e.rcond, rc); } if (e.rcond < 1e-5) e.tie = true;
        double wb, wa; bool conv; if (k.i("n") <= 30 && ref::scalSearch(k, wb, wa, conv)) { double gb = std::sqrt(got.v.at("scale")(0)), ga = std::sqrt(got.v.at("penalty")(0)); r.ctr[conv ? "searches_compared" : "unfinished_searches_compared"]++; if (std::fabs(gb - wb) > 1e-4 * (1 + wb) || std::fabs(ga - wa) > 1e-4 * (1 + wa)) return "the search ended at scale " + g12(gb * gb) + " and penalty " + g12(ga * ga) + ", the defined one ends at " + g12(wb * wb) + " and " + g12(wa * wa); } else r.ctr["search_no_verdict"]++;
    } else if (a == "mgwr") e = ref::expect(k);
    else if (a == "gwdr" && sel) { KV q = k.without("sel"); const mat& b = got.v.at("bw"); for (uword j = 0; j < b.n_elem; j++) q = q.with(j == 0 ? "bw" : fmt("bw%d", (int)j + 1), fmt("%.17g", b(j))); e = ref::expect(q);
        vec want; bool conv; if (ref::gwdrSearch(k.without("var"), want, conv)) { r.ctr["searches_compared"]++; for (uword j = 0; j < want.n_elem; j++) if (std::fabs(want(j) - b(j)) > 1e-5 * (1 + want(j))) return "bandwidth " + g12(b(j)) + " was chosen for dimension " + fmt("%d", (int)j) + ", the simplex search on the criterion ends at " + g12(want(j)); } else r.ctr["search_no_verdict"]++; }
    else if (sel) {
        double bw = got.v.at("bw")(0); const mat& L = got.v.at("bwlist"); bool ad = k.i("adaptive", 1) != 0; Data d = makeData(k);
        KV q = k.without("sel").with("bw", fmt("%.17g", bw)); if (a == "gtwr" || true) e = ref::expect(q);
        double best = DBL_MAX, bb = 0; double n = d.coords.n_rows;
        for (uword i = 0; i < L.n_rows; i++) {
            bool ok, tie = false; double rc; double c = critAt(kc, L(i, 0), ok, rc, tie); if (L(i, 1) < best) { best = L(i, 1); bb = L(i, 0); }
            if (!ok || rc < RC || tie || !std::isfinite(c)) { r.ctr["crit_no_verdict"]++; continue; }
            r.ctr["criteria_compared"]++; if (critOff(k.s("sel") == "cv", c, L(i, 1), rc, d.y)) return "criterion at bandwidth " + g12(L(i, 0)) + " is " + g12(L(i, 1)) + " expected " + g12(c);
        }
        if (L.n_rows == 0) return "no bandwidth was evaluated";
        double bc = DBL_MAX; for (uword i = 0; i < L.n_rows; i++) if (L(i, 0) == bw) bc = L(i, 1);
        if (bc == DBL_MAX) return "the chosen bandwidth " + g12(bw) + " is not among those evaluated"; if (bc > best) return "bandwidth " + g12(bw) + " was chosen although " + g12(bb) + " scored better";
        double lo = ad ? 20 : 0, hi = ad ? n : (a == "gtwr" ? -1 : ref::maxDist(k, d.coords)); if (a == "gwr" || a == "robust") { lo = k.d("lo", lo); hi = k.d("hi", hi); } 
        if (hi > 0) {
            bool shaky = false; if (getenv("MC_VERBOSE")) L.print(std::cerr); auto g = ref::golden(lo, hi, ad, [&](double b) { bool ok, tie = false; double rc; double c = critAt(kc, b, ok, rc, tie); if (rc < 1e-6 || tie || !ok || !std::isfinite(c)) shaky = true; return ok && std::isfinite(c) ? c : DBL_MAX; });
            if (getenv("MC_VERBOSE")) for (auto& q : g.evals) fprintf(stderr, "%.12g %.12g\n", q.first, q.second); if (!g.tie && !shaky && !g.failed) { r.ctr["searches_compared"]++; if (std::fabs(g.x - bw) > 1e-6 * (1 + std::fabs(bw))) return "bandwidth " + g12(bw) + " was chosen, golden section on the criterion gives " + g12(g.x); if (g.evals.size() != L.n_rows) return fmt("%d bandwidths were reported, %d were to be evaluated", (int)L.n_rows, (int)g.evals.size()); }
            else r.ctr["search_no_verdict"]++;
        }
    } else e = ref::expect(k);
    if (!only.empty()) return "";
    if (!e.ok || e.tie || e.rcond < RC) { r.ctr["no_verdict"]++; if (getenv("MC_VERBOSE")) fprintf(stderr, "no verdict ok=%d tie=%d rcond=%g %s\n", e.ok, e.tie, e.rcond, e.why.c_str()); return ""; }
    Out g2 = got; if (a == "gwpca") {
        signNorm(k, g2); signNorm(k, e.o); mat &x = e.o.v["loadings"], &y = g2.v["loadings"]; int n = k.i("n"), K = k.i("k", 2), p = k.i("p");
        if (x.n_elem == y.n_elem && (int)x.n_elem == n * p * K) for (int q = 0; q < K; q++) for (int i = 0; i < n; i++) if (std::isnan(x(i + n * p * q))) { double l = 0; for (int a = 0; a < p; a++) { uword j = i + n * a + n * p * q; l += y(j) * y(j); x(j) = y(j); } r.ctr["directions_undetermined"]++; if (!(std::fabs(l - 1) < 1e-6)) return fmt("the loadings of component %d at location %d have length %g", q, i, std::sqrt(l)); }
    }
    if (a == "gtwr" && k.s("ops", "F").back() == 'Q') { mat b = e.o.v.at("betas"); e.o.v.clear(); e.o.v["pred"] = b; r.ctr["predictions_compared"]++; }
    if ((a == "gwr" || a == "gtwr" || a == "gwdr" || a == "robust") && !k.i("hat", 1)) for (const char* x : {"se", "qdiag", "S", "shat", "AIC", "AICc", "ENP", "EDF", "R2adj"}) e.o.v.erase(x);
    if (a == "mgwr" && !k.i("hat", 1)) for (const char* x : {"AIC", "AICc", "ENP", "EDF", "R2adj"}) e.o.v.erase(x);
    if (a == "mgwr") { string t = backfitOff(e.o.v["backfit"], got, r); if (!t.empty()) return t; e.o.v.erase("backfit"); }
    if (sel) e.o.v.erase("bw"); if (a == "gwr" && k.s("par").substr(0, 3) == "mpi") { e.o.v.erase("S"); e.o.v.erase("C"); }
    r.ctr["models_compared"]++;
    return diff(e.o, g2, std::min(1e-3, std::max(1e-6, 1e-13 / (e.rcond * e.rcond))));
}
struct Spec { string spec; int par; };                          // par bits: 1 omp, 2 mpi, 4 mpi with threads
static vector<Spec> deepen(const vector<Spec>& v) { vector<Spec> o = v; for (auto& s : v) { size_t p = s.spec.find("seed="); if (p == string::npos) o.push_back({s.spec + ";seed=2|3|4|5|6|7", s.par}); else { size_t e = s.spec.find(';', p); o.push_back({s.spec.substr(0, p) + "seed=11|12|13|14|15|16|17|18|19|20|21|22" + (e == string::npos ? "" : s.spec.substr(e)), s.par}); } } return o; }
static string gOnly;                                              // restrict the enumeration to the selections of bandwidths or variables
static void addCases(vector<Case>& cs, const vector<Spec>& specs0, bool th, int = 0) {
    vector<Spec> specs = th ? deepen(specs0) : specs0;
    std::set<string> seen;
    for (auto& s : specs) for (auto& k0 : expand(s.spec)) {
        KV k = k0; if (!gOnly.empty()) { string a = k.s("algo"); if (gOnly == "bw" ? k.s("sel", "no") == "no" || a == "scal" || a == "mgwr" || k.i("autolam") : !k.i("var")) continue; k = k.with("only", gOnly); }
        if (!seen.insert(k.str()).second) continue; int par = s.par; size_t ord = seen.size() - 1;
        cs.push_back({k.str(), [=](Res& r) {
            std::set<uint64_t> fp; vector<std::pair<string, KV>> modes{{"serial", k.with("par", "serial")}};
            int n = k.i("n"); if (par & 1) for (int t : (th ? vector<int>{1, 2, 3, n + 1} : vector<int>{vector<int>{3, 2, 5, 8, 1, 4, 16, n + 1}[ord % 8]})) modes.push_back({fmt("%d threads", t), k.with("par", "omp").with("thr", t)});
            if (par & 2) for (int w : (th ? vector<int>{1, 2, 3, 5} : vector<int>{2, vector<int>{3, 4, 5, 3, 7}[ord % 5]})) modes.push_back({fmt("%d processes", w), k.with("par", "mpi").with("W", w)});
            if (par & 4) modes.push_back({"2 processes with threads", k.with("par", "mpimp").with("W", 2).with("thr", 2)});
            for (auto& m : modes) {
                rt::ompCfg = rt::OmpConfig(); rt::ompCfg.maxThreads = std::max(1, m.second.i("thr", 1)); Env e; Out o; TeleState ts; ts.record = true; bool tell = k.s("algo") == "mgwr" && !m.second.has("W"); if (tell) e.tele = &ts;
                if (m.second.has("W")) o = runMpi(m.second.without("W"), m.second.i("W")); else if (m.second.s("par") == "omp") o = runControlled(m.second, e); else o = runScenario(m.second, e);
                if (tell && !o.threw) backfit(ts, o);
                r.execs++; r.states++; r.transitions++; r.validated++; fp.insert(fingerprint(o));
                string d = judge(m.second.without("W"), o, r); if (!d.empty()) { r.bad(m.second.s("par") == "serial" ? "serial" : m.second.s("par"), m.first + ": " + d); break; }
                if (m.first == "serial") r.samples.push_back(k.str() + " -> " + brief(o));
            }
            r.distinct += fp.empty() ? 0 : 1;
        }, th ? 300 : 60});
    }
}
// wide tables: data families x layouts x kernels x bandwidths
static Reg c09("C09", [](vector<Case>& cs, bool th) {
    addCases(cs, {
        {"algo=gwr;n=7|9|12;p=1|2|3;bw=6|6.5;" K5 ";hat=0|1", 7}, {"algo=gwr;n=9;p=2|3;bw=8|9|9.5|14;" K5 ";hat=0|1", 7}, {"algo=gwr;n=9;p=2|3;icpt=0;bw=7;" K5 ";hat=0|1", 3},
        {"algo=gwr;n=9;p=1|2|3;adaptive=0;bw=25|60|150;" K5 ";hat=0|1", 3}, {"algo=gwr;n=12;p=2;layout=grid|line|dup|far|outlier|collin;bw=8;" K5 ";hat=1;storeC=0|1", 3},
        {"algo=gwr;n=10;p=2;layout=grid|line|dup|far;adaptive=0;bw=30;kernel=0|1|2;hat=0|1", 3},
        {"algo=gwr;n=9;p=2;dist=geo;layout=geo;bw=7;" K5 ";hat=0|1", 3}, {"algo=gwr;n=9;p=2;dist=geo;layout=geo;adaptive=0;bw=300|900;kernel=0|1|2", 3},
        {"algo=gwr;n=9;p=2;dist=mink;mp=1|2|3|1.5|-1;mth=0|0.5;bw=7;kernel=0|2", 1}, {"algo=gwr;n=9;p=2;dist=mink;mp=1|2|3|-1;mth=0|0.5;bw=40;adaptive=0;kernel=0|2", 1},
        {"algo=gwr;n=10|12;p=2;sel=cv|aic;lo=5;hi=10;" K5, 7}, {"algo=gwr;n=10;p=2;sel=cv|aic;adaptive=0;kernel=0|1", 3}, {"algo=gwr;n=26;p=2;sel=cv|aic;kernel=0|2;hat=0|1;order=pc|cp", 3},
        {"algo=gwr;n=10;p=2|3|4;var=1;thd=0.5|3|100;bw=8;hat=0|1", 3}, {"algo=gwr;n=10;p=3;icpt=0;var=1;thd=0.5|3;bw=8", 3}, {"algo=gwr;n=12;p=4;var=1;thd=1;sel=cv|aic;lo=6;hi=12", 3},
        {"algo=gwr;n=9;p=2;seed=2|3|4|5;bw=6;kernel=0|2;hat=0|1", 7}, {"algo=gwr;n=14;p=6;bw=12|14;hat=0|1;kernel=0|1", 3},
    }, th);
    addCases(cs, {{"algo=gwr;n=7|8|9|10|11;p=2|3;seed=1|2|3|4|5|6;bw=6|7|8.25;" K5 ";hat=0|1", 7}, {"algo=gwr;n=10|13;p=2|3;sel=cv|aic;seed=1|2|3|4;lo=5|6;hi=9|10;" K5, 7}}, th, 1);
    addCases(cs, {{"algo=gwr;n=9|13;p=2|3;" LAY ";" VAL ";bw=8|11;" K5 ";hat=1", 1}, {"algo=gwr;n=10;p=2|3;" LAY ";" VAL ";adaptive=0;bw=45|300;" K5 ";hat=0|1", 1}, {"algo=gwr;n=12;p=2|3;" LAY ";" VAL ";sel=cv|aic;lo=6|8;hi=11|12;kernel=0|1|2", 3}, {"algo=gwr;n=11;p=2;" LAY ";" VAL ";sel=cv|aic;adaptive=0;kernel=0|1", 3}, {"algo=gwr;n=12;p=4;" LAY ";" VAL ";var=1;thd=0.5|5;bw=9;kernel=0|1", 3}, {"algo=gwr;n=10;p=2;icpt=0;" LAY ";" VAL ";bw=8;" K5 ";hat=0|1", 3}, {"algo=gwr;n=12;p=2;dist=mink;mp=1|3|-1;mth=0|0.5;" LAY ";vals=int|pos|rep;bw=9;kernel=0|2|3", 1}, {"algo=gwr;n=70|101;p=2|3;bw=25|60|99;" K5 ";hat=0|1", 7}, {"algo=gwr;n=40;p=2;sel=cv|aic;" K5 ";" VAL "", 7}}, th, 2);
    addCases(cs, {{"algo=gwr;n=150|257;p=2|3;bw=40|120|300;kernel=0|1|2|3|4;hat=0|1", 7}, {"algo=gwr;n=150;p=2;adaptive=0;bw=30|80;kernel=0|1|2;hat=1", 7}, {"algo=gwr;n=60|70;p=9|12;bw=50|70;kernel=0|1|2;hat=0|1", 7}, {"algo=gwr;n=150;p=2|3;sel=cv|aic;kernel=0|2", 7}, {"algo=gwr;n=40;p=8;var=1;thd=0.5|3;bw=36|60;kernel=0", 7}, {"algo=gwr;n=4|5|6;p=1|2;bw=4|5|6;kernel=0|1;hat=0|1", 7}, {"algo=gwr;n=120;p=2;dist=geo;layout=geo;bw=60;kernel=0|2", 7}}, th, 3);
});
static Reg c10("C10", [](vector<Case>& cs, bool th) {
    addCases(cs, {
        {"algo=gtwr;n=9|16;p=1|2|3;bw=8|8.5|16;" K5 ";lambda=0.05|0.5|0.95;hat=0|1", 1}, {"algo=gtwr;n=16;p=2;bw=12|10|16;seed=2|3;" K5 ";lambda=0.3|0.7;hat=0|1", 1}, {"algo=gtwr;n=10;p=2;bw=12|10;lambda=0|1|0.3;kernel=0|1;hat=0|1", 1}, {"algo=gtwr;n=12;p=2;bw=10;angle=0|0.7|1.2;lambda=0.05|0.5;kernel=0|2;hat=0|1", 1},
        {"algo=gtwr;n=10;p=2;adaptive=0;bw=20|60;lambda=0.3|1;kernel=0|1;hat=0|1", 1}, {"algo=gtwr;n=10;p=2;layout=geo;geo=1;bw=9;lambda=0.3;kernel=0|1|2", 1}, {"algo=gtwr;n=12;p=2;layout=grid|line|dup|far;bw=10;lambda=0.4;kernel=0|1|2;hat=1", 1}, {"algo=gtwr;n=10;p=2;icpt=0;bw=9;lambda=0.4;kernel=0|1;hat=0|1", 1},
        {"algo=gtwr;n=9|16;p=1|2|3;bw=8|8.5|14;" K5 ";lambda=0.05|0.5;hat=0|1;ops=Q|FQ|QQ", 1}, {"algo=gtwr;n=10;p=2;adaptive=0;bw=20|60;lambda=0.3|1;kernel=0|1;ops=Q|FQ", 1}, {"algo=gtwr;n=14;p=2;tm=same|seq|frac|neg;" LAY ";vals=int|neg;bw=12;kernel=0|1;lambda=0.3;ops=Q", 1}, {"algo=gtwr;n=10;p=2;icpt=0;bw=9;lambda=0.3;kernel=0|2;ops=Q|FQ", 1},
        {"algo=gtwr;n=26;p=2;sel=cv|aic;lambda=0.3|0.8;kernel=0|1;order=pc|cp", 1}, {"algo=gtwr;n=10;p=2;sel=cv|aic;adaptive=0;lambda=0.6;kernel=0|1", 1}, {"algo=gtwr;n=10|12;p=1|2;autolam=1;bw=8|9;lambda=0.2|0.7;kernel=0|1|2;hat=0|1", 1}, {"algo=gtwr;n=12;p=2;autolam=1;sel=cv|aic;adaptive=0;lambda=0.4;kernel=0", 1},
    }, th);
    addCases(cs, {{"algo=gtwr;n=8|9|11;p=2|3;seed=1|2|3|4|5;bw=8;" K5 ";lambda=0.05|0.3|0.5|0.95|1;hat=0|1", 1}}, th, 1);
    addCases(cs, {{"algo=gtwr;n=14;p=2;tm=same|seq|rev|frac|neg|big;" LAY ";vals=int|big|neg|rep|same2;bw=12;kernel=0|1|2;lambda=0.3|0.8;hat=1", 1}, {"algo=gtwr;n=14;p=2|3;tm=same|frac|big;" LAY ";" VAL ";adaptive=0;bw=60|400;kernel=0|1;lambda=0.5;hat=0|1", 1}, {"algo=gtwr;n=26|30;p=2;tm=same|frac|seq|neg;layout=rand|dup|clus|cross;vals=int|rep|same2|tiny;sel=cv|aic;lambda=0.3|0.9;kernel=0|1|2", 1}, {"algo=gtwr;n=12;p=2;tm=same|frac|neg;layout=rand|dup|cross;vals=int|rep|same2|tiny;sel=cv|aic;adaptive=0;lambda=0.3|0.9;kernel=0|1", 1}, {"algo=gtwr;n=12;p=2;tm=same|frac|seq|rev;layout=rand|dup|grid;vals=int|rep|same2|pos;autolam=1;lambda=0.3;bw=11;kernel=0|1", 1}, {"algo=gtwr;n=14;p=2;tm=frac;angle=0|0.3|0.7|1.2|1.5;" LAY ";bw=13;lambda=0.2|0.6;" K5 "", 1}}, th, 2);
    addCases(cs, {{"algo=gtwr;n=150|257;p=2|3;tm=same|rep;bw=60|140;kernel=0|1|2;lambda=0.3|0.8;hat=0|1", 1}, {"algo=gtwr;n=60;p=9|12;tm=same;bw=58;kernel=0|1;lambda=0.4;hat=0|1", 1}, {"algo=gtwr;n=120;p=2;tm=same;sel=cv|aic;lambda=0.5;kernel=0", 1}, {"algo=gtwr;n=5|6;p=1|2;tm=same;bw=5|6;kernel=0|1;lambda=0.4;hat=0|1", 1}}, th, 3);
});
static Reg c11("C11", [](vector<Case>& cs, bool th) {
    addCases(cs, {
        {"algo=gwdr;n=9|12;p=1|2|3;bw=8|8.5;bw2=9;" K5 ";hat=0|1", 1}, {"algo=gwdr;n=12;p=2;dims=1|2|3;bw=11;bw2=12;" K5 ";hat=0|1", 1}, {"algo=gwdr;n=10;p=2;bw=14;bw2=9;kernel=0|1;hat=0|1;icpt=0|1", 1}, {"algo=gwdr;n=10;p=2;adaptive=0;bw=60|90;bw2=40|70;" K5 ";hat=0|1", 1}, {"algo=gwdr;n=12;p=2;layout=grid|dup|far;bw=12;bw2=12;kernel=0|1;hat=1", 1},
        {"algo=gwdr;n=10;p=3|4;var=1;thd=0.5|3|100;bw=9;bw2=10;hat=0|1", 1}, {"algo=gwdr;n=10;p=3;icpt=0;var=1;thd=0.5|3;bw=9;bw2=10", 1}, {"algo=gwdr;n=12;p=2;bw=9;bw2=9|30;sel=cv|aic;maxit=4|100;bweps=0.05;kernel=0|1|2", 1}, {"algo=gwdr;n=12;p=2;bw=2|3|4;bw2=3|9;sel=cv|aic;maxit=100;bweps=0.05;kernel=0|1|2", 1}, {"algo=gwdr;n=14;p=2;dims=1|3;bw=10;bw2=12;sel=cv|aic;maxit=200;bweps=0.02;kernel=0|1", 1}, {"algo=gwdr;n=12;p=2;adaptive=0;bw=50;bw2=30;sel=cv|aic;maxit=100;bweps=0.05;kernel=0|1", 1}, {"algo=gwdr;n=12;p=3;bw=9;bw2=9;sel=cv|aic;var=1;thd=1;maxit=100;bweps=0.05", 1},
    }, th);
    addCases(cs, {{"algo=gwdr;n=9|10|11;p=2|3;seed=1|2|3|4|5|6;bw=8|9.5;bw2=9|12;" K5 ";hat=0|1", 1}}, th, 1);
    addCases(cs, {{"algo=gwdr;n=12;p=2|3;" LAY ";" VAL ";bw=10|12;bw2=11;" K5 ";hat=1;probe=1", 1}, {"algo=gwdr;n=12;p=2;dims=1|2|3;" LAY ";" VAL ";adaptive=0;bw=70;bw2=50|300;kernel=0|1|2;hat=0|1;probe=1", 1}, {"algo=gwdr;n=13;p=2;dims=1|2|3;layout=rand|grid|dup|cross;vals=int|rep|pos;bw=9;bw2=11;sel=cv|aic;maxit=150;bwstep=0.1|0.3;bweps=0.05;kernel=0|1", 1}, {"algo=gwdr;n=13;p=2;dims=1|2|3;layout=rand|grid|dup|cross;vals=int|rep|pos;adaptive=0;bw=30;bw2=20;sel=cv|aic;maxit=150;bwstep=0.5|2;bweps=0.1;kernel=0|1", 1}, {"algo=gwdr;n=12;p=4;dims=1|2|3;" LAY ";" VAL ";var=1;thd=0.5|5;bw=11;bw2=12;kernel=0|1", 1}}, th, 2);
    addCases(cs, {{"algo=gwdr;n=13;p=2|3;dims=2|3;kmix=0|1;amix=0|1;bw=11;bw2=60;" K5 ";hat=0|1;layout=rand|dup", 1}, {"algo=gwdr;n=13;p=2|3;dims=2|3;kmix=0|1;amix=1;adaptive=0;bw=60;bw2=11;" K5 ";hat=0|1", 1}, {"algo=gwdr;n=14;p=2;dims=2|3;kmix=0|1;amix=1;bw=12;bw2=30;sel=cv|aic;maxit=150;bwstep=0.1|0.3;bweps=0.05;kernel=0|1;seed=1|2|3", 1}, {"algo=gwdr;n=14;p=2;dims=2|3;kmix=1;sel=cv|aic;bw=12;bw2=12;maxit=150;bwstep=0.1|0.3;bweps=0.05;kernel=0|1|2", 1}, {"algo=gwdr;n=13;p=3|4;dims=2|3;kmix=1;amix=0|1;bw=11;bw2=60;var=1;thd=0.5|3;kernel=0|1", 1}}, th, 2);
    addCases(cs, {{"algo=gwdr;n=150|257;p=2|3;dims=1|2|3;bw=70|140;bw2=90|300;kernel=0|1|2;hat=0|1", 1}, {"algo=gwdr;n=60;p=9|12;bw=58;bw2=60;kernel=0|1;hat=0|1", 1}, {"algo=gwdr;n=5|6;p=1|2;bw=5|6;bw2=6;kernel=0|1;hat=0|1", 1}, {"algo=gwdr;n=40;p=7;var=1;thd=0.5|3;bw=36;bw2=40;kernel=0", 1}}, th, 3);
});
static Reg c12("C12", [](vector<Case>& cs, bool th) {
    addCases(cs, {
        {"algo=mgwr;n=9|12;p=1|2|3;lo=6;hi=9;bw=7;bw1=8;kernel=0|1|2;hat=0|1;maxit=1|2|5", 7}, {"algo=mgwr;n=10;p=2;lo=6;hi=10;bw=8;icpt=0;center=0|1;hat=0|1;maxit=3", 3}, {"algo=mgwr;n=10;p=3;lo=7;hi=10;bw=8;bw1=9;bw2=10;center=1;hat=1;crit=cvr|dcvr;eps=1e-6|0.1;maxit=8", 7},
        {"algo=mgwr;n=10;p=2;adaptive=0;bw=50;bw1=80;kernel=0|1;hat=0|1;maxit=3", 3}, {"algo=mgwr;n=14;p=2|3;adaptive=0;dmix=1;sel=cv|aic;bw=60;kernel=0|1;maxit=2;hat=0", 1}, {"algo=mgwr;n=14;p=2;adaptive=0;amix=1;dmix=0|1;sel=cv|aic;alow=9;bw=60;kernel=0;maxit=2;hat=0", 1}, {"algo=mgwr;n=30;p=2;bw=12;lo=22|25;kernel=0|1;maxit=2;hat=0", 1}, {"algo=mgwr;n=30;p=2;bw=12;hi=24|27;kernel=0|1;maxit=2;hat=0", 1}, {"algo=mgwr;n=14;p=2;adaptive=0;bw=80;lo=60;maxit=2;hat=0", 1}, {"algo=mgwr;n=14;p=2;adaptive=0;bw=80;hi=90;maxit=2;hat=0", 1}, {"algo=mgwr;n=30;p=2;sel=cv|aic;alow=10;hi=24;maxit=2;hat=0", 1}, {"algo=mgwr;n=30;p=2;sel=cv|aic;lo=21;maxit=2;hat=0", 1}, {"algo=mgwr;n=10;p=2;sel=cv|aic;lo=6;hi=10;alow=6;retry=1|2;maxit=3;kernel=0|1|2;hat=0|1", 3}, {"algo=mgwr;n=10;p=2;sel=cv|aic;init=init;mix=spec|null;lo=6;hi=10;alow=6;bw=8;retry=1;maxit=3;hat=1", 3}, {"algo=mgwr;n=10;p=2;sel=cv|aic;adaptive=0;kernel=0|1;retry=1;maxit=2;hat=1", 3},
        {"algo=mgwr;n=26;p=2;sel=cv|aic;kernel=0;retry=1;maxit=2", 3}, {"algo=mgwr;n=12;p=2;layout=grid|line|far|dup;lo=8;hi=12;bw=10;maxit=3", 3}, {"algo=mgwr;n=10;p=2;dist=geo;layout=geo;lo=6;hi=10;bw=8;maxit=3", 1},
    }, th);
    addCases(cs, {{"algo=mgwr;n=30;p=3;seed=1|2|3|4|5|6|7|8|9|10|11|12|13|14|15|16|17|18|19|20|21|22|23|24;sel=cv|aic;init=init|null;alow=8;bw=15;retry=2|3;bwthr=0.5;eps=1e-12;maxit=12;hat=0", 0}, {"algo=mgwr;n=18;p=3;kernel=1|2|4;seed=1|2|3|4;sel=cv|aic;lo=8;hi=18;alow=8;retry=2|3|4;bwthr=0.5|2;eps=1e-12;maxit=14;hat=0", 0}, {"algo=mgwr;n=24;p=2;seed=1|2|3|4;sel=cv|aic;init=init|null;alow=8;bw=12;retry=2;bwthr=1e-5|1;eps=1e-12;maxit=8;hat=1;kernel=0|2", 1}}, th);
    addCases(cs, {{"algo=mgwr;n=9|10|11;p=2|3;seed=1|2|3|4|5;lo=6;hi=9;bw=7;bw1=8;kernel=0|1;hat=0|1;maxit=1|4;center=0|1", 7}}, th, 1);
    addCases(cs, {{"algo=mgwr;n=11;p=2|3;" LAY ";" VAL ";lo=7;hi=11;bw=8;bw1=10;kernel=0|1;hat=1;center=0|1;maxit=3", 3}, {"algo=mgwr;n=12;p=2;" LAY ";" VAL ";sel=cv|aic;lo=7;hi=12;alow=7;retry=2;bwthr=0.5;maxit=4;kernel=0|1;hat=0", 1}, {"algo=mgwr;n=11;p=2;" LAY ";vals=int|rep|pos;adaptive=0;bw=60;bw1=200;kernel=0|1;hat=1;maxit=4", 3}, {"algo=mgwr;n=11;p=2;" LAY ";vals=int|rep|pos;sel=cv|aic;adaptive=0;retry=1|2;maxit=3;kernel=0|1;hat=0|1", 1}}, th, 2);
    addCases(cs, {{"algo=mgwr;n=14;p=3|5;lo=9;hi=14;bw=10;bw1=13;bw2=12;kmix=0|1;dmix=0|1;cmix=0|1;center=0|1;hat=0|1;kernel=0|1|2;crit=cvr|dcvr;maxit=3", 3}, {"algo=mgwr;n=14;p=3;sel=cv|aic;smix=0|1;kmix=0|1;dmix=0|1;lo=8;hi=14;alow=8;init=init|null;bw=10;bw1=13;retry=2;maxit=4;hat=0|1", 3},
        {"algo=mgwr;n=14;p=2|3;adaptive=0;amix=1;bw=60;bw1=12;bw2=90;kmix=0|1;dmix=0|1;hat=0|1;maxit=3", 3}, {"algo=mgwr;n=16;p=3;adaptive=0;amix=1;sel=cv|aic;smix=0|1;alow=8;init=init|null;bw=60;bw1=12;retry=2;maxit=3;kernel=0|1;hat=0", 3}, {"algo=mgwr;n=30;p=4|5;sel=cv|aic;smix=0|1;tmix=1;alow=8;init=init;mix=spec|null;bw=15;retry=2|3|4;eps=1e-12;maxit=9;hat=0;seed=1|2|3|4", 3}, {"algo=mgwr;n=30;p=3|4;icpt=0;center=1;cmix=0|1;smix=0|1;sel=cv|aic;alow=9;bw=15;retry=1;maxit=2;kernel=0|1;kmix=1;hat=0|1", 3}}, th, 2);
    addCases(cs, {{"algo=mgwr;n=120;p=2|3;lo=30;hi=120;bw=60;bw1=110;kernel=0|1|2;hat=0|1;maxit=2", 3}, {"algo=mgwr;n=50;p=8|11;lo=40;hi=50;bw=45;bw1=49;kernel=0|1;hat=0|1;maxit=2", 3}, {"algo=mgwr;n=6|7;p=1|2;lo=5;hi=6;bw=6;kernel=0|1;hat=0|1;maxit=3", 3}}, th, 3);
});
static Reg c13("C13", [](vector<Case>& cs, bool th) {
    addCases(cs, {
        {"algo=robust;n=9|12;p=1|2|3;bw=8|8.5;" K5 ";hat=0|1;filt=0|1", 1}, {"algo=robust;n=12|16;p=2;layout=outlier;bw=10;" K5 ";hat=1;filt=0|1", 1}, {"algo=robust;n=12|20;p=2;layout=outlier;adaptive=0;bw=60|200;kernel=0|1;hat=0|1;filt=0|1", 1}, {"algo=robust;n=12;p=2;layout=grid|line|dup|far;bw=10;kernel=0|1;filt=0|1", 1}, {"algo=robust;n=12;p=2;icpt=0;bw=10;filt=0|1", 1},
        {"algo=robust;n=26;p=2;layout=rand|outlier;sel=cv|aic;filt=0|1;kernel=0|1", 1}, {"algo=robust;n=12;p=2;layout=rand|outlier;sel=cv|aic;lo=6|8;hi=10|12;filt=0|1", 1}, {"algo=robust;n=12;p=2;layout=rand|outlier;sel=cv|aic;adaptive=0;lo=30;hi=90;filt=0|1", 1}, {"algo=robust;n=20;p=2;layout=outlier1;bw=18|20;filt=0|1;kernel=0|1|2", 1},
    }, th);
    addCases(cs, {{"algo=robust;n=12|14|20;p=2|3;layout=outlier|outlier1;seed=1|2|3|4|5;bw=11|12;" K5 ";hat=1;filt=0|1", 1}}, th, 1);
    addCases(cs, {{"algo=robust;n=12;p=2|3;" LAY ";" VAL ";bw=10;" K5 ";hat=1;filt=0|1", 1}, {"algo=robust;n=12;p=2;" LAY ";" VAL ";adaptive=0;bw=60|300;kernel=0|1;hat=0|1;filt=0|1", 1}, {"algo=robust;n=13;p=2;" LAY ";" VAL ";sel=cv|aic;lo=7;hi=12;kernel=0|1;filt=0|1", 1}, {"algo=robust;n=40;p=2;layout=outlier|outlier1|clus|dup;seed=1|2|3;bw=25|40;" K5 ";filt=0|1", 1}}, th, 2);
    addCases(cs, {{"algo=robust;n=150|257;p=2|3;layout=rand|outlier;bw=60|140;kernel=0|1|2;filt=0|1;hat=1", 1}, {"algo=robust;n=60;p=9|12;layout=rand|outlier;bw=58;kernel=0|1;filt=0|1", 1}, {"algo=robust;n=6|7;p=1|2;bw=6;kernel=0|1;filt=0|1", 1}}, th, 3);
});
static Reg c14("C14", [](vector<Case>& cs, bool th) {
    addCases(cs, {
        {"algo=ggwr;fam=poisson|binomial;n=10|14;p=1|2|3;bw=9|9.5|14;" K5 ";hat=0|1", 1}, {"algo=ggwr;fam=poisson|binomial;n=12;p=2;adaptive=0;bw=60|150;kernel=0|1;hat=0|1", 1}, {"algo=ggwr;fam=poisson|binomial;n=12;p=2;bw=12;maxit=1|2|50;tol=1e-3|1e-8;hat=0|1", 1}, {"algo=ggwr;fam=poisson|binomial;n=12;p=2;icpt=0;bw=11;hat=0|1", 1}, {"algo=ggwr;fam=poisson|binomial;n=12;p=2;layout=grid|line|dup|far;bw=11;hat=0|1", 1},
        {"algo=ggwr;fam=poisson|binomial;n=26;p=2;sel=cv|aic;kernel=0|1;order=fpc|cpf|pfc", 1}, {"algo=ggwr;fam=poisson|binomial;n=12;p=2;sel=cv|aic;adaptive=0;kernel=0|1", 1},
    }, th);
    addCases(cs, {{"algo=ggwr;fam=poisson|binomial;n=11|13;p=2|3;seed=1|2|3|4|5;bw=10|12;" K5 ";hat=0|1", 1}}, th, 1);
    addCases(cs, {{"algo=ggwr;fam=poisson|binomial;n=14;p=2|3;" LAY ";" VAL ";bw=12|14;" K5 ";hat=1", 1}, {"algo=ggwr;fam=poisson|binomial;n=14;p=2;" LAY ";" VAL ";adaptive=0;bw=80|400;kernel=0|1;hat=0|1", 1}, {"algo=ggwr;fam=poisson|binomial;n=26;p=2;layout=rand|dup|clus|cross;" VAL ";sel=cv|aic;kernel=0|1", 1}, {"algo=ggwr;fam=poisson|binomial;n=14;p=2;layout=rand|dup|cross;" VAL ";sel=cv|aic;adaptive=0;kernel=0|1", 1}, {"algo=ggwr;fam=poisson|binomial;n=40;p=2|3;bw=25|39;" K5 ";hat=0|1;maxit=1|3|20;tol=1e-2|1e-6", 1}}, th, 2);
    addCases(cs, {{"algo=ggwr;fam=poisson;n=12|16;p=2|3;vals=steep;bw=11|16;kernel=0|1;hat=0|1;seed=1|2|3", 1}, {"algo=ggwr;fam=poisson;n=14;p=2;vals=steep;sel=cv|aic;kernel=0|1", 1}, {"algo=ggwr;fam=poisson|binomial;n=150|257;p=2|3;bw=80|140;kernel=0|1|2;hat=0|1", 1}, {"algo=ggwr;fam=poisson|binomial;n=90;p=6|8;bw=88;kernel=0|1;hat=0|1", 1}, {"algo=ggwr;fam=poisson|binomial;n=120;p=2;sel=cv|aic;kernel=0", 1}}, th, 3);
});
static Reg c15("C15", [](vector<Case>& cs, bool th) {
    addCases(cs, {
        {"algo=lcr;n=9|12;p=2|3;bw=8|8.5;" K5 ";hat=0|1", 1}, {"algo=lcr;n=12;p=3;layout=rand|collin;bw=10|12;lam=0|0.1|0.5;ladj=0|1;cn=2|5|30;hat=0|1;kernel=0|2", 1}, {"algo=lcr;n=10;p=2;adaptive=0;bw=40|100;lam=0|0.2;ladj=0|1;cn=3;kernel=0|1;hat=0|1", 1}, {"algo=lcr;n=10;p=2;icpt=0;bw=8;lam=0|0.2;ladj=0|1;cn=2", 1}, {"algo=lcr;n=12;p=2;layout=grid|line|dup|far;bw=10;ladj=1;cn=3", 1},
        {"algo=lcr;n=26;p=2|3;sel=cv;lam=0|0.1;ladj=0|1;cn=5;kernel=0|1;order=pc|cp", 1}, {"algo=lcr;n=10;p=2;sel=cv;adaptive=0;ladj=0|1;cn=3;kernel=0|1", 1},
    }, th);
    addCases(cs, {{"algo=lcr;n=9|11;p=3|4;seed=1|2|3|4|5;layout=rand|collin;bw=9;lam=0|0.3;ladj=0|1;cn=3|10|30;" K5 ";hat=0|1", 1}}, th, 1);
    addCases(cs, {{"algo=lcr;n=12;p=2|3;" LAY ";" VAL ";bw=10;lam=0|0.3;ladj=0|1;cn=3|30;kernel=0|1|2;hat=1", 1}, {"algo=lcr;n=12;p=3;" LAY ";" VAL ";adaptive=0;bw=60|300;lam=0|0.2;ladj=0|1;cn=5;kernel=0|1;hat=0|1", 1}, {"algo=lcr;n=26;p=3;layout=rand|dup|clus|collin;" VAL ";sel=cv;lam=0|0.1;ladj=0|1;cn=4|30;kernel=0|1", 1}, {"algo=lcr;n=12;p=2|3;layout=rand|dup|cross|collin;" VAL ";sel=cv;adaptive=0;lam=0|0.1;ladj=0|1;cn=4|30;kernel=0|1", 1}}, th, 2);
    addCases(cs, {{"algo=lcr;n=150|257;p=2|3;bw=60|140;lam=0|0.2;ladj=0|1;cn=4;kernel=0|1|2;hat=0|1", 1}, {"algo=lcr;n=60;p=9|12;bw=58;lam=0|0.2;ladj=0|1;cn=4;kernel=0|1", 1}, {"algo=lcr;n=120;p=3;sel=cv;ladj=0|1;cn=4;kernel=0", 1}, {"algo=lcr;n=6|7;p=2;bw=6;kernel=0|1;hat=0|1", 1}}, th, 3);
});
static Reg c16("C16", [](vector<Case>& cs, bool th) {
    addCases(cs, {
        {"algo=scal;n=12|16;p=1|2|3;bw=8|12;kernel=0|1;sel=cv|aic;hat=0|1", 0}, {"algo=scal;n=12;p=2;bw=10;poly=1|2|3|4|5|6;kernel=0|1;sel=cv|aic", 0}, {"algo=scal;n=12;p=2;bw=11|12|13|20;sel=cv|aic", 0}, {"algo=scal;n=12;p=2;icpt=0;bw=10;sel=cv|aic", 0}, {"algo=scal;n=60|64;p=2;bw=52|55|60;sel=cv|aic;kernel=0|1", 0}, {"algo=scal;n=14;p=2;layout=far|line;bw=10;sel=cv|aic", 0}, {"algo=scal;n=14;p=2;dist=geo;layout=geo;bw=10;sel=cv|aic", 0},
    }, th);
    addCases(cs, {{"algo=scal;n=12|15|20;p=2|3;seed=1|2|3|4|5|6;bw=8|11;kernel=0|1;sel=cv|aic;poly=2|3|4|5", 0}}, th, 1);
    addCases(cs, {{"algo=scal;n=14;p=2|3;layout=rand|line|far|neg|cross|clus|iso|iso0|col;vals=int|dummy|big|neg|pos|zeros;bw=9|13;kernel=0|1;sel=cv|aic", 0}, {"algo=scal;n=55|80;p=2|3;bw=30|49|50|51|70;kernel=0|1;sel=cv|aic;poly=2|4|5", 0}}, th, 2);
    addCases(cs, {{"algo=scal;n=150;p=2|3;bw=20|50|100|149;kernel=0|1;sel=cv|aic", 0}, {"algo=scal;n=60;p=6|8;bw=50;kernel=0|1;sel=cv|aic", 0}, {"algo=scal;n=6|8;p=1|2;bw=5;kernel=0|1;sel=cv|aic", 0}, {"algo=scal;n=14|20;p=2|3|4;vals=tiny;seed=1|2|3;bw=9|13;kernel=0|1;sel=cv|aic", 0}, {"algo=scal;n=14;p=5|6;vals=tiny;seed=1|2;bw=9|13;kernel=0|1;sel=cv|aic", 0}, {"algo=scal;n=14|20;p=3|4|5|6;vals=small;seed=1|2;bw=9|13;kernel=0|1;sel=cv|aic", 0}}, th, 3);
});
static Reg c17("C17", [](vector<Case>& cs, bool th) {
    addCases(cs, {
        {"algo=gwss;n=5|9|12;p=1|2|3;bw=4|4.5|9;" K5 ";mode=avg;quant=0|1", 1}, {"algo=gwss;n=5|9|12;p=2|3|4;bw=4|4.5|9;" K5 ";mode=cor;first=0|1", 1}, {"algo=gwss;n=10;p=2;adaptive=0;bw=30|100;" K5 ";mode=avg|cor;quant=1", 1}, {"algo=gwss;n=10;p=2;layout=grid|line|dup|far;bw=7;kernel=0|2|4;mode=avg|cor;quant=1", 1}, {"algo=gwss;n=10;p=2;dist=geo;layout=geo;bw=7;kernel=0|2;mode=avg|cor;quant=1", 1}, {"algo=gwss;n=9;p=3;bw=7;mode=avg|cor;order=mp|pm;quant=0|1;first=0|1", 1},
    }, th);
    addCases(cs, {{"algo=gwss;n=4|8|16;p=1|2;seed=1|2|3;kernel=4;adaptive=0;bw=100000;mode=avg;quant=1", 1}, {"algo=gwss;n=10|17;p=2;seed=1|2|3;kernel=4;bw=4|5|8|9|16;mode=avg;quant=1", 1}, {"algo=gwss;n=24|40;p=2|3;seed=1|2;" K5 ";bw=12|20;mode=avg|cor;quant=1", 1}}, th);
    addCases(cs, {{"algo=gwss;n=6|7|8|10;p=2|3;seed=1|2|3|4|5;bw=5|6.5;" K5 ";mode=avg|cor;quant=1;first=0|1", 1}}, th, 1);
    addCases(cs, {{"algo=gwss;n=9|12;p=2|3;" LAY ";" VAL ";bw=8|11;" K5 ";mode=avg;quant=1", 1}, {"algo=gwss;n=9|12;p=3;" LAY ";" VAL ";bw=8|11;" K5 ";mode=cor;first=0|1", 1}, {"algo=gwss;n=12;p=2|3;" LAY ";" VAL ";adaptive=0;bw=45|300;" K5 ";mode=avg|cor;quant=1;first=0|1", 1}}, th, 2);
    addCases(cs, {{"algo=gwss;n=150|257;p=2|3;bw=60|140|300;kernel=0|1|2|3|4;mode=avg|cor;quant=1", 1}, {"algo=gwss;n=20;p=7|9;bw=15;kernel=0|1|2;mode=avg|cor;quant=1;first=0|1", 1}, {"algo=gwss;n=3|4;p=2;bw=3|4;kernel=0|1|4;mode=avg|cor;quant=1", 1}}, th, 3);
});
static Reg c18("C18", [](vector<Case>& cs, bool th) {
    addCases(cs, {
        {"algo=gwpca;n=6|9|12;p=2|3|4;k=1|2;bw=6|6.5|9;" K5, 0}, {"algo=gwpca;n=9;p=3;k=1|2|3;bw=8|14;" K5, 0}, {"algo=gwpca;n=10;p=3;k=2;adaptive=0;bw=50|120;" K5, 0}, {"algo=gwpca;n=12;p=3;k=2;layout=grid|line|dup|far;bw=9;kernel=0|1|2", 0}, {"algo=gwpca;n=10;p=3;k=2;dist=geo;layout=geo;bw=8;kernel=0|2", 0},
    }, th);
    addCases(cs, {{"algo=gwpca;n=9|12;p=4|5;k=1|2;bw=3|4|5|6;kernel=2|3|4;seed=1|2|3", 0}, {"algo=gwpca;n=10;p=5;k=1|2;adaptive=0;bw=30|40|60;kernel=2|3|4;seed=1|2|3", 0}, {"algo=gwpca;n=30;p=3|4;k=1|2|3;bw=12|20;" K5, 0}}, th);
    addCases(cs, {{"algo=gwpca;n=7|8|11;p=3|4;seed=1|2|3|4|5|6;k=1|2|3;bw=6|7.5;" K5, 0}}, th, 1);
    addCases(cs, {{"algo=gwpca;n=12;p=3|4;" LAY ";vals=int|big|tiny|neg|pos|zeros|rep|same2;k=1|2|3;bw=8|11;" K5 "", 0}, {"algo=gwpca;n=12;p=3;" LAY ";vals=int|big|tiny|neg|pos|zeros|rep|same2;k=1|2;adaptive=0;bw=60|400;" K5 "", 0}}, th, 2);
    addCases(cs, {{"algo=gwpca;n=120|200;p=3|6;k=1|2|3;bw=60|110|300;kernel=0|1|2|3|4", 0}, {"algo=gwpca;n=40;p=9|12;k=1|5|9;bw=30|36;kernel=0|1|2", 0}}, th, 3);
});
static Reg c19("C19", [](vector<Case>& cs, bool th) {
    addCases(cs, {
        {"algo=gwda;n=14|18;p=2|3;ng=2|3;bw=12|14;kernel=0|1;wqda=0|1", 1}, {"algo=gwda;n=14;p=2;ng=2|3;bw=12|20;kernel=0|2;wqda=0|1;hcov=0|1;hmean=0|1;hprior=0|1", 1}, {"algo=gwda;n=16;p=2;ng=2|4;adaptive=0;bw=60|150;kernel=0|1;wqda=0|1", 1}, {"algo=gwda;n=16;p=2;ng=2;layout=grid|line|dup|far;bw=14;wqda=0|1", 1}, {"algo=gwda;n=20;p=2|3;ng=2|3;bw=18;kernel=0|1;wqda=0|1;seed=2|3|4", 1},
    }, th);
    addCases(cs, {{"algo=gwda;n=14|17;p=2|3;ng=2|3;seed=1|2|3|4|5;bw=13;kernel=0|1|2;wqda=0|1;hcov=0|1;hmean=0|1;hprior=0|1", 1}}, th, 1);
    addCases(cs, {{"algo=gwda;n=20;p=2|3;ng=2|3|4;gr=names|rev|unbal|late;layout=rand|dup|cross|far;vals=int|big|neg|pos|zeros;bw=18|20;kernel=0|1;wqda=0|1", 1}, {"algo=gwda;n=20;p=2;ng=2|3;" LAY ";gr=names|unbal;adaptive=0;bw=80|300;" K5 ";wqda=0|1", 1}, {"algo=gwda;n=24;p=2|3;ng=2|3;gr=names|rev|unbal|late;seed=1|2|3;bw=22|24;" K5 ";wqda=0|1;hcov=0|1;hmean=0|1;hprior=0|1", 1}}, th, 2);
    addCases(cs, {{"algo=gwda;n=120;p=2|3;ng=2|5|7;bw=90|110;kernel=0|1;wqda=0|1", 1}, {"algo=gwda;n=60;p=6|8;ng=2;bw=58;kernel=0|1;wqda=0|1", 1}, {"algo=gwda;n=24|48;p=2;ng=2|3|5|7;gr=alike|names;bw=24|48|60;kernel=0|1;wqda=0|1", 1}}, th, 3);
});
void addSelections(vector<Case>& cs, bool th, const char* what) { gOnly = what; for (const char* p : {"C09", "C10", "C11", "C13", "C14", "C15"}) registry()[p](cs, th); gOnly.clear(); }
