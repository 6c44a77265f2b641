// C25: the same problem presented differently has the same solution.
#include "common.h"
#include "scen.h"
#include "ref.h"
#include <algorithm>
#include <numeric>
using std::string; using std::vector; using namespace arma;
namespace {
Out go(const KV& k) { int thr = k.i("thr", 1); rt::ompCfg = rt::OmpConfig(); rt::ompCfg.maxThreads = thr; rt::lapack = rt::LapackCfg(); Env e; return k.s("par") == "omp" ? runControlled(k, e) : runScenario(k, e); }
string dots(const vector<int>& v) { string s; for (int x : v) s += (s.empty() ? "" : ".") + std::to_string(x); return s; }
const std::set<string> rowwise = {"ret", "betas", "se", "~se", "qdiag", "mean", "sdev", "var", "skew", "cv", "median", "iqr", "qi", "cov", "cor", "scor", "pv", "loadings", "res", "probs", "pmax", "entropy", "group"}, both = {"S", "wt1", "wt2"}, coef = {"ret", "betas", "se", "~se", "pred"};
bool regression(const string& a) { return a != "gwss" && a != "gwpca" && a != "gwda"; }
void drop(Out& o, std::initializer_list<const char*> n) { for (auto s : n) o.v.erase(s); }
vector<string> levels(const vector<string>& g) { vector<string> l; for (auto& s : g) if (!std::count(l.begin(), l.end(), s)) l.push_back(s); return l; }
// the observations in another order
Out permuted(const KV& k, const Out& o, const vector<int>& p) {
    Out q = o; string a = k.s("algo"); uword n = p.size(); uvec ix(n); for (uword i = 0; i < n; i++) ix(i) = p[i];
    for (auto& e : q.v) { mat& m = e.second; if (m.is_empty()) continue;
        if (both.count(e.first)) { if (m.n_rows == n) m = mat(m.rows(ix)); if (m.n_cols == n) m = mat(m.cols(ix)); }
        else if (a == "scal" && e.first == "cv") continue;
        else if (rowwise.count(e.first)) { if (m.n_rows == n) m = mat(m.rows(ix)); else if (m.n_rows % n == 0) { mat r = reshape(m, n, m.n_elem / n); r = mat(r.rows(ix)); m = reshape(r, m.n_elem, 1); } } }
    if (a == "gwda") { vector<string> g = makeData(k.with("icpt", 0)).groups, h; for (int i : p) h.push_back(g[i]); auto l0 = levels(g), l1 = levels(h); for (const char* s : {"res", "probs"}) { mat m = q.v[s], r = m; if (m.n_cols == l0.size()) for (size_t c = 0; c < l1.size(); c++) r.col(c) = m.col(std::find(l0.begin(), l0.end(), l1[c]) - l0.begin()); q.v[s] = r; } }
    return q;
}
void tidy(const KV& k, Out& o) { drop(o, {"scores", "C", "bwlist"}); if (o.v.count("loadings")) o.v["loadings"] = abs(o.v["loadings"]); if (k.s("algo") == "mgwr") drop(o, {}); }
// The simplex search of scalable regression stops at a width of its own, so two equivalent problems end that far apart.
double slack(const KV& k) { return k.s("algo") == "scal" ? 1e-4 : 1e-6; }
string cmp(const Out& want, const Out& got, double tol) { return diff(want, got, tol); }
void caseObs(const KV& k, int maxSwaps, Res& r) {
    int n = k.i("n"); Out ref = go(k); r.execs++; if (ref.threw) { r.bad("base", "the calculation fails: " + ref.exc); return; } tidy(k, ref);
    double tol = k.d("tolr", slack(k)); vector<int> p(n); std::iota(p.begin(), p.end(), 0);
    auto one = [&]() { KV q = k.with("perm", dots(p)); Out o = go(q); r.execs++; r.states++; r.transitions += n; r.validated++; tidy(k, o); string d = cmp(permuted(k, ref, p), o, tol); if (d.empty()) return true; r.bad("order of observations", d + " with the observations in the order " + dots(p)); return false; };
    if (maxSwaps < 0) { do if (!one()) return; while (std::next_permutation(p.begin(), p.end())); }
    else { std::function<bool(int)> rec = [&](int s) { if (!one()) return false; if (s) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { std::swap(p[i], p[j]); bool c = rec(s - 1); std::swap(p[i], p[j]); if (!c) return false; } return true; };
        if (!rec(maxSwaps)) return; for (int s = 1; s < n; s++) { for (int i = 0; i < n; i++) p[i] = (i + s) % n; if (!one()) return; std::reverse(p.begin(), p.end()); if (!one()) return; } }
    r.distinct++; r.samples.push_back(k.str() + fmt(": %llu orders of %d observations", (unsigned long long)r.states, n));
}
void caseVars(const KV& k, Res& r) {
    string a = k.s("algo"); int P = k.i("p"), first = regression(a) && k.i("icpt", 1) ? 1 : 0; Out ref = go(k); r.execs++; if (ref.threw) { r.bad("base", "the calculation fails: " + ref.exc); return; } tidy(k, ref);
    vector<int> p(P); std::iota(p.begin(), p.end(), 0);
    do { KV q = k.with("vperm", dots(p)); Out o = go(q); r.execs++; r.states++; r.transitions += P; r.validated++; tidy(k, o); Out w = ref;
        for (auto& e : w.v) { mat& m = e.second; mat s = m; if (m.is_empty()) continue;
            if (regression(a)) { if (coef.count(e.first) && (int)m.n_cols == P) for (int j = 0; j < P; j++) m.col(j) = s.col(p[j]); }
            else if (a == "gwpca") { if (e.first == "loadings") { uword n = k.i("n"), K = m.n_elem / n / P; for (uword c = 0; c < K; c++) for (int j = 0; j < P; j++) for (uword i = 0; i < n; i++) m(i + n * (j + P * c)) = s(i + n * (p[j] + P * c)); } }
            else if (a == "gwss") { if ((int)m.n_cols == P && e.first != "cov" && e.first != "cor" && e.first != "scor") for (int j = 0; j < P; j++) m.col(j) = s.col(p[j]);
                else if (e.first == "cov" || e.first == "cor" || e.first == "scor") { auto idx = [&](int x, int y) { if (x > y) std::swap(x, y); int z = 0; for (int u = 0; u < P; u++) for (int v = u + 1; v < P; v++, z++) if (u == x && v == y) return z; return -1; }; int z = 0; for (int u = 0; u < P; u++) for (int v = u + 1; v < P; v++, z++) m.col(z) = s.col(idx(p[u], p[v])); } } }
        string d = cmp(w, o, slack(k)); if (!d.empty()) { r.bad("order of variables", d + " with the variables in the order " + dots(p)); return; }
    } while (std::next_permutation(p.begin() + first, p.end()));
    r.distinct++; r.samples.push_back(k.str() + fmt(": %llu orders of the variables", (unsigned long long)r.states));
}
void caseMove(const KV& k, Res& r) {
    string a = k.s("algo"); Out ref = go(k); r.execs++; if (ref.threw) { r.bad("base", "the calculation fails: " + ref.exc); return; } tidy(k, ref);
    auto judge = [&](const KV& q, const Out& w, const string& how, double tol) { Out o = go(q); r.execs++; r.states++; r.transitions++; r.validated++; tidy(k, o); string d = cmp(w, o, tol); if (d.empty()) return; r.bad(how, d + " after " + how + " " + q.s("move")); };
    for (const char* m : {"rot", "half", "refl", "swap", "shift"}) { if (a == "gwdr" && (!strcmp(m, "rot") || !strcmp(m, "swap"))) continue; judge(k.with("move", m), ref, "moving the map", slack(k)); }
    if (a == "gtwr") judge(k.with("move", "time"), ref, "moving the map", slack(k));
    bool ad = k.i("adaptive", 1), sel = k.s("sel", "no") != "no";
    if (a != "gtwr" && a != "scal" && k.i("dims", 2) < 3) for (const char* m : {"sc4", "sc16th", "sc512th", "sc1024"}) { if (ad) judge(k.with("move", m), ref, "changing the unit of distance", slack(k));
        else if (!sel) { double f = !strcmp(m, "sc4") ? 4 : !strcmp(m, "sc16th") ? 1 / 16.0 : !strcmp(m, "sc512th") ? 1 / 512.0 : 1024; KV q = k.with("move", m); for (const char* b : {"bw", "bw1", "bw2"}) if (k.has(b)) q = q.with(b, fmt("%.17g", k.d(b) * f)); Out w = ref; if (w.v.count("bw")) w.v["bw"] *= f; judge(q, w, "changing the unit of distance", slack(k)); } }
    if (regression(a) && a != "ggwr") { Out w = ref; if (!sel || a == "scal") { for (auto s : {"ret", "betas", "se", "pred"}) if (w.v.count(s)) w.v[s] *= 8; if (w.v.count("RSS")) w.v["RSS"] *= 64; if (a == "scal" && k.s("sel", "cv") == "cv") w.v["cv"] *= 64; double n = k.i("n"), sh = n * std::log(64.0); for (auto s : {"AIC", "AICc"}) if (w.v.count(s)) w.v[s] += sh; if (w.v.count("varlist")) w.v["varlist"].col(1) += sh; if (a == "scal" && k.s("sel", "cv") != "cv") w.v["cv"] += sh; judge(k.with("ysc", 8), w, "changing the unit of the response", slack(k)); }
        w = ref; for (auto s : {"ret", "betas", "pred"}) if (w.v.count(s)) w.v[s] *= -1; judge(k.with("ysc", -1), w, "changing the sign of the response", slack(k)); }
    if (regression(a)) for (int j = 1; j < k.i("p"); j++) { Out w = ref; for (auto s : {"ret", "betas", "se", "~se", "pred"}) if (w.v.count(s) && !w.v[s].is_empty()) { int col = j; if (k.i("var")) { const mat& sv = ref.v.at("vars"); int i0 = k.i("icpt", 1) ? 1 : 0; col = -1; for (uword z = 0; z < sv.n_elem; z++) if ((int)sv(z) == j) col = (int)z + i0; } if (col >= 0 && col < (int)w.v[s].n_cols) w.v[s].col(col) /= 4; }
        if (a == "scal") { Out t; for (auto s : {"ENP", "EDF", "AIC", "AICc", "R2adj"}) { t.v[s] = w.v[s]; w.v.erase(s); } judge(k.with("xsc", j), t, "unit dependent trace", slack(k)); if (k.s("sel") != "cv") continue; }
        judge(k.with("xsc", j), w, "changing the unit of a variable", slack(k)); }
    if (a == "gwss") for (int j = 0; j < k.i("p"); j++) { Out w = ref; for (auto s : {"mean", "sdev", "median", "iqr"}) if (w.v.count(s) && !w.v[s].is_empty()) w.v[s].col(j) *= 4; if (!w.v["var"].is_empty()) w.v["var"].col(j) *= 16; int z = 0; if (!w.v["cov"].is_empty() && !k.i("first")) for (int u = 0; u < k.i("p"); u++) for (int v = u + 1; v < k.i("p"); v++, z++) if (u == j || v == j) w.v["cov"].col(z) *= 4; if (!k.i("first")) judge(k.with("xsc", j), w, "changing the unit of a variable", slack(k)); }
    if (a == "gwda" && !k.i("wqda")) for (int j = 0; j < k.i("p"); j++) { Out w, o; for (auto s : {"group", "rate"}) w.v[s] = ref.v[s]; judge(k.with("xsc", j), w, "changing the unit of a variable", slack(k)); }
    // units far apart: the results are converted back before they are compared
    auto far = [&](const KV& q, const std::function<void(Out&)>& back, const string& how) { Out o = go(q); r.execs++; r.states++; r.transitions++; r.validated++; tidy(k, o); if (!o.threw) back(o); string d = cmp(ref, o, slack(k) * 10); if (!d.empty()) r.bad(how, d + " after " + how + " a lot: " + q.str()); };
    auto mul = [](Out& o, std::initializer_list<const char*> names, int col, double f) { for (auto s : names) if (o.v.count(s) && !o.v[s].is_empty()) { if (col < 0) o.v[s] *= f; else if (col < (int)o.v[s].n_cols) o.v[s].col(col) *= f; } };
    for (double f : {std::ldexp(1, 20), std::ldexp(1, -20)}) {
        if (regression(a) && a != "ggwr" && a != "scal" && a != "mgwr" && !sel) far(k.with("ysc", fmt("%.17g", f)), [&](Out& o) { mul(o, {"ret", "betas", "se", "pred"}, -1, 1 / f); mul(o, {"RSS"}, -1, 1 / (f * f)); double sh = k.i("n") * std::log(f * f); for (auto s : {"AIC", "AICc"}) if (o.v.count(s)) o.v[s] -= sh; if (o.v.count("varlist")) o.v["varlist"].col(1) -= sh; }, "changing the unit of the response");
        double g = std::sqrt(f);
        if (regression(a) && a != "scal" && !k.i("var") && !sel) for (int j = 1; j < k.i("p"); j++) far(k.with("xsc", j).with("xsf", fmt("%.17g", g)), [&](Out& o) { mul(o, {"ret", "betas", "se", "~se", "pred"}, j, g); }, "changing the unit of a variable");
        if (a == "gwda" && !k.i("wqda")) for (int j = 0; j < k.i("p"); j++) far(k.with("xsc", j).with("xsf", fmt("%.17g", g)), [&](Out& o) { for (auto it = o.v.begin(); it != o.v.end();) it = it->first == "group" || it->first == "rate" ? std::next(it) : o.v.erase(it); for (auto& e : ref.v) if (!o.v.count(e.first)) o.v[e.first] = e.second; }, "changing the unit of a variable");
        if (a == "gwss" && !k.i("first")) for (int j = 0; j < k.i("p"); j++) far(k.with("xsc", j).with("xsf", fmt("%.17g", f)), [&](Out& o) { mul(o, {"mean", "sdev", "median", "iqr"}, j, 1 / f); mul(o, {"var"}, j, 1 / (f * f)); int z = 0; for (int u = 0; u < k.i("p"); u++) for (int v = u + 1; v < k.i("p"); v++, z++) if (u == j || v == j) mul(o, {"cov"}, z, 1 / f); }, "changing the unit of a variable");
    }
    if (!r.viol.size()) { r.distinct++; r.samples.push_back(k.str() + fmt(": %llu presentations", (unsigned long long)r.states)); }
}
}
static Reg c25("C25", [](vector<Case>& cs, bool th) {
    vector<string> small = {
        "algo=gwr;n=6;p=2;bw=6|5;adaptive=1;kernel=0|1;hat=1", "algo=gwr;n=6;p=2;bw=55;adaptive=0;kernel=0|1;hat=0|1", "algo=gwr;n=7;p=3;bw=90;adaptive=0;par=omp;thr=2|3", "algo=gwr;n=7;p=2;bw=60;adaptive=0;sel=cv|aic;lo=40;hi=90", "algo=gwr;n=6;p=2;bw=6;ops=P;nrp=4",
        "algo=robust;n=6;p=2;bw=6;filt=0|1", "algo=gtwr;n=6;p=2;bw=6;lambda=0.3|0.8", "algo=gtwr;n=6;p=2;bw=70;adaptive=0;par=omp;thr=2", "algo=gwdr;n=6;p=2;bw=6;bw2=6", "algo=gwdr;n=6;p=2;bw=80;bw2=70;adaptive=0;par=omp;thr=2;kernel=0",
        "algo=mgwr;n=6;p=2;bw=6;maxit=4;lo=5;hi=6", "algo=ggwr;n=6;p=2;fam=poisson;bw=70;adaptive=0;maxit=4;hat=0|1", "algo=lcr;n=6;p=2;bw=6;lam=0|0.2;cn=3", "algo=lcr;n=6;p=2;bw=70;adaptive=0;ladj=1;cn=2;par=omp;thr=2", "algo=scal;n=7;p=2;bw=5;sel=cv|aic",
        "algo=gwss;n=6;p=2;bw=5|6;mode=avg;quant=1;par=serial", "algo=gwss;n=6;p=2;bw=50;adaptive=0;mode=avg|cor;quant=1;par=omp;thr=2", "algo=gwpca;n=7;p=3;k=2;bw=6|7", "algo=gwpca;n=6;p=3;k=1;bw=60;adaptive=0"};
    for (auto& s : small) for (auto& k : expand(s)) { bool heavy = k.i("n") >= 7 || k.s("algo") == "scal"; (void)heavy; cs.push_back({"obs:" + k.str(), [=](Res& r) { caseObs(k, -1, r); }, 300}); }
    vector<string> big = {
        "algo=gwr;n=12;p=3;bw=9;kernel=0|1|2|3|4;hat=1", "algo=gwr;n=12;p=3;bw=9;sel=cv|aic;lo=7;hi=12;par=serial", "algo=gwr;n=12;p=3;bw=9;sel=cv|aic;lo=7;hi=12;par=omp;thr=3", "algo=gwr;n=11;p=2;bw=8;dist=mink;mp=1|3", "algo=robust;n=12;p=2;bw=9;filt=0|1;layout=outlier", "algo=robust;n=12;p=2;bw=9;filt=1;layout=outlier;par=omp;thr=2",
        "algo=gtwr;n=12;p=2;bw=9;lambda=0.4;par=omp;thr=2", "algo=gtwr;n=10;p=2;bw=70;adaptive=0;sel=cv|aic", "algo=gwdr;n=12;p=2;bw=9;bw2=10", "algo=mgwr;n=10;p=2;bw=8;maxit=3;hat=1;par=serial", "algo=mgwr;n=10;p=3;bw=9;maxit=2;hat=1;par=omp;thr=2",
        "algo=ggwr;n=12;p=2;fam=poisson|binomial;bw=11;maxit=5;hat=1", "algo=ggwr;n=12;p=2;fam=poisson;bw=80;adaptive=0;sel=cv|aic;par=omp;thr=2", "algo=lcr;n=12;p=3;bw=9;lam=0;cn=30", "algo=lcr;n=12;p=3;bw=9;ladj=1;cn=2;par=omp;thr=2", "algo=lcr;n=11;p=2;bw=70;adaptive=0;sel=cv", "algo=scal;n=12;p=3;bw=8;sel=cv|aic",
        "algo=gwss;n=12;p=3;bw=8;mode=avg;quant=1", "algo=gwss;n=12;p=3;bw=8;mode=cor;par=omp;thr=2", "algo=gwpca;n=12;p=4;k=3;bw=9", "algo=gwda;n=14;p=2;ng=2;bw=12;wqda=0|1", "algo=gwda;n=14;p=2;ng=3;bw=13;hcov=0;hmean=0|1;par=omp;thr=2"};
    for (auto& s : big) for (auto& k : expand(s)) { cs.push_back({"obs:" + k.str(), [=](Res& r) { caseObs(k, th ? 2 : 1, r); }, 600});
        if (k.s("algo") != "gwda" && k.s("algo") != "mgwr" && k.s("dist") != "mink") cs.push_back({"vars:" + k.str(), [=](Res& r) { caseVars(k, r); }, 200});
        if (k.s("dist") != "mink") cs.push_back({"move:" + k.str(), [=](Res& r) { caseMove(k, r); }, 200}); }
    for (auto& s : {"algo=gwr;n=12;p=3;bw=60;adaptive=0;kernel=0|1|2|3|4", "algo=lcr;n=12;p=2;bw=60;adaptive=0", "algo=gwss;n=12;p=3;bw=60;adaptive=0;mode=avg|cor;quant=1", "algo=gwpca;n=12;p=3;k=2;bw=60;adaptive=0", "algo=gwda;n=14;p=2;ng=2;bw=80;adaptive=0", "algo=gwdr;n=12;p=2;bw=80;bw2=70;adaptive=0", "algo=gwr;n=12;p=5;bw=12;icpt=0|1", "algo=gwss;n=10;p=4;bw=9;mode=cor"}) for (auto& k : expand(s)) { cs.push_back({"move:" + k.str(), [=](Res& r) { caseMove(k, r); }, 200}); if (k.s("algo") != "gwda") cs.push_back({"vars:" + k.str(), [=](Res& r) { caseVars(k, r); }, 200}); }
    // selections of variables, in other units and orders of the observations
    for (auto& s : {"algo=gwr;n=12;p=4;bw=80;adaptive=0;var=1;thd=0.5|5;kernel=0|1", "algo=gwr;n=12;p=4;bw=11;var=1;thd=0.5|5;kernel=0|1;icpt=0|1", "algo=gwr;n=12;p=4;bw=11;var=1;thd=1;par=omp;thr=3", "algo=gwdr;n=12;p=4;bw=80;bw2=90;adaptive=0;var=1;thd=0.5|5;kernel=0|1;dims=1|2|3", "algo=gwdr;n=12;p=4;bw=80;bw2=90;adaptive=0;var=1;thd=1;par=omp;thr=3", "algo=gwdr;n=12;p=4;bw=11;bw2=12;var=1;thd=0.5|5;kernel=0", "algo=robust;n=12;p=4;bw=11;var=1;thd=1;filt=0|1", "algo=gtwr;n=12;p=3;bw=11;lambda=0.4"}) for (auto& k : expand(s)) {
        cs.push_back({"obs:" + k.str(), [=](Res& r) { caseObs(k, th ? 2 : 1, r); }, 600}); if (k.s("algo") != "gtwr" || !k.i("var")) cs.push_back({"move:" + k.str(), [=](Res& r) { caseMove(k, r); }, 200}); }
    // wide tables of data; only where the local problems are well conditioned
    auto gate = [](const KV& k, Res& r) { if (ref::wellPosed(k, 1e-6)) return true; r.ctr["no_verdict"]++; return false; };
    #define LAY5 "layout=rand|neg|cross|far|clus|iso"
    for (auto& s : {"algo=gwr;n=14;p=3;" LAY5 ";vals=int|dummy|big|tiny|neg|pos|zeros;bw=12;" K5 ";hat=0|1", "algo=gwr;n=12;p=2|3;" LAY5 ";vals=int|big|neg|zeros;adaptive=0;bw=90|400;kernel=0|1|2", "algo=gwr;n=12;p=2;layout=grid|line|dup;vals=int|neg;bw=11;kernel=0|1;hat=1", "algo=gwr;n=15;p=2;vals=rep|same2;bw=13;kernel=0|1", "algo=gwr;n=40;p=3;bw=25;" K5 "", "algo=gwr;n=12;p=2;bw=11;nrp=5;ops=P;" LAY5 "", "algo=robust;n=14;p=2;" LAY5 ";vals=big|neg|zeros;bw=12;kernel=0|1;filt=0|1",
        "algo=gtwr;n=14;p=2;tm=same|frac|seq|neg;" LAY5 ";vals=int|neg|zeros;bw=12;kernel=0|1;lambda=0.3|0.8", "algo=gwdr;n=14;p=2;dims=1|2|3;" LAY5 ";vals=int|neg|zeros;bw=12;bw2=13;kernel=0|1", "algo=gwdr;n=12;p=2;dims=1|2|3;" LAY5 ";vals=int|neg|zeros;adaptive=0;bw=90;bw2=60;kernel=0|1|2", "algo=mgwr;n=12;p=2;" LAY5 ";vals=int|neg|zeros|big;lo=8;hi=12;bw=9;bw1=11;kernel=0|1;maxit=3",
        "algo=ggwr;fam=poisson|binomial;n=16;p=2;" LAY5 ";vals=int|neg|zeros;bw=15;kernel=0|1;hat=0|1;maxit=5", "algo=ggwr;fam=poisson|binomial;n=14;p=2;bw=13;nrp=5;ops=P;maxit=5", "algo=lcr;n=14;p=3;" LAY5 ";vals=int|neg|zeros|big;bw=12;lam=0|0.3;cn=30;kernel=0|1", "algo=lcr;n=14;p=3;" LAY5 ";bw=12;ladj=1;cn=4;nrp=5;ops=F|P", 
        "algo=gwss;n=14;p=3;" LAY5 ";vals=big|tiny|neg|pos;bw=11;kernel=0|1|2;mode=avg;quant=0|1", "algo=gwss;n=14;p=3;" LAY5 ";vals=int|dummy|big|tiny|neg|pos|zeros;bw=11;kernel=0|1|2;mode=cor;first=0|1", "algo=gwss;n=14;p=2;layout=grid|line|dup;vals=neg|pos;adaptive=0;bw=60;kernel=0|1;mode=avg|cor;quant=1",
        "algo=gwpca;n=14;p=3;" LAY5 ";vals=big|neg|pos;k=1|2;bw=11;kernel=0|1|2", "algo=gwda;n=20;p=2;ng=2|3;gr=names|rev|unbal|late;layout=rand|neg|cross;bw=18;kernel=0|1;wqda=0|1"}) for (auto& k : expand(s)) {
        cs.push_back({"wide obs:" + k.str(), [=](Res& r) { if (gate(k, r)) caseObs(k, th ? 1 : 0, r); }, 200});
        bool pr = k.has("ops"); if (k.s("algo") != "gwda" && k.s("algo") != "mgwr" && !pr && !k.i("first")) cs.push_back({"wide vars:" + k.str(), [=](Res& r) { if (gate(k, r)) caseVars(k, r); }, 200});
        if (!pr || k.s("ops") == "P") cs.push_back({"wide move:" + k.str(), [=](Res& r) { if (gate(k, r)) caseMove(k, r); }, 200}); }
});
