// C24: results depend on the values in force, not on how and in which order they were set.
#include "common.h"
#include "scen.h"
#include <algorithm>
#include "gwmodelpp/GWRBasic.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/GWDR.h"
#include "gwmodelpp/GWRMultiscale.h"
#include "gwmodelpp/GWRRobust.h"
#include "gwmodelpp/GWRGeneralized.h"
#include "gwmodelpp/GWRLocalCollinearity.h"
#include "gwmodelpp/GWRScalable.h"
#include "gwmodelpp/GWSS.h"
#include "gwmodelpp/GWPCA.h"
#include "gwmodelpp/GWDA.h"
using std::string; using std::vector; using namespace arma; using namespace gwm;
namespace {
Out go(const KV& k, const Order& o) { rt::ompCfg = rt::OmpConfig(); rt::ompCfg.maxThreads = std::max(1, k.i("thr", 1)); rt::lapack = rt::LapackCfg(); Env e; return runOrdered(k, e, o, true); }
// multiscale settings per variable are checked against the variables, which therefore come first
bool admissible(const string& algo, const Order& o, const vector<int>& s) {
    if (algo != "mgwr") return true; bool x = false;
    for (int i : s) { const string& n = i >= 0 ? o.real[i] : o.other[-1 - i]; if (n == "setIndependentVariables") x = true; else if (!x && (n == "setBandwidthInitilize" || n == "setBandwidthSelectionApproach")) return false; }
    return true;
}
bool switchLike(const string& n) { static const std::set<string> s = {"setParallelType", "setOmpThreadNum", "setIsAutoselectBandwidth", "setBandwidthSelectionCriterion", "setBandwidthSelectionCriterionType", "setBandwidthCriterionType", "setEnableBandwidthOptimize", "setFamily", "setGWSSMode", "setIsAutoselectIndepVars", "setEnableIndepVarSelect", "setFiltered", "setIsAutoselectLambda", "setIsWqda", "setCriterionType", "setParameterOptimizeCriterion"}; return s.count(n) > 0; }
void caseOrders(const KV& k, const vector<KV>& wrongs, bool th, Res& r) {
    Order o; Out ref = go(k, o); r.execs++; uint64_t regions = rt::ompStats.regions; int n = (int)o.real.size(); string algo = k.s("algo");
    if (ref.threw) { r.bad("base", "the calculation fails: " + ref.exc); return; }
    if ((k.s("par") == "omp") != (regions > 0)) { r.bad("mode", fmt("%s execution was asked for, %llu parallel regions were entered", k.s("par", "serial").c_str(), (unsigned long long)regions)); return; }
    vector<int> canon(n); for (int i = 0; i < n; i++) canon[i] = i; std::set<vector<int>> seen; seen.insert(canon); Order base = o;
    auto tell = [&](const Order& q) { string s; for (int i : q.seq) s += (s.empty() ? "" : " ") + (i >= 0 ? base.real[i] : "(" + q.other[-1 - i] + ")"); return s; };
    auto judge = [&](const vector<int>& s, const KV* w, const vector<string>& wn, const char* how) {
        Order q; q.seq = s; q.wrong = w; q.real = base.real; q.other = wn; if (!admissible(algo, q, s)) return true;
        Out g = go(k, q); r.execs++; r.states++; r.transitions += s.size(); r.validated++;
        string d = diff(ref, g, 1e-9); if (d.empty() && rt::ompStats.regions != regions) d = fmt("%llu parallel regions instead of %llu", (unsigned long long)rt::ompStats.regions, (unsigned long long)regions);
        if (d.empty()) return true; r.bad(how, d + " when configured by " + tell(q) + (w ? " with () from " + w->str() : "")); return false;
    };
    auto order = [&](const vector<int>& s) { if (!seen.insert(s).second) return true; return judge(s, nullptr, {}, "order"); };
    // every order within one or two moves of a single step, and the reverse
    auto moves = [&](const vector<int>& s, std::function<bool(const vector<int>&)> f) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) { vector<int> t = s; int x = t[i]; t.erase(t.begin() + i); t.insert(t.begin() + j, x); if (!f(t)) return false; } return true; };
    vector<int> rev(canon.rbegin(), canon.rend());
    if (!order(rev)) return;
    if (!moves(canon, order)) return; if (!moves(rev, order)) return;
    if (th || n <= 8) if (!moves(canon, [&](const vector<int>& s) { return moves(s, order); })) return;
    // every order of the steps that switch behaviour
    vector<int> sw; for (int i = 0; i < n; i++) if (switchLike(base.real[i])) sw.push_back(i);
    { vector<int> p = sw; std::sort(p.begin(), p.end()); do { vector<int> s = canon; for (size_t i = 0; i < sw.size(); i++) s[sw[i]] = p[i]; if (!order(s)) return; vector<int> e = rev; size_t z = 0; for (auto& x : e) if (std::count(sw.begin(), sw.end(), x)) x = p[z++]; if (!order(e)) return; } while (std::next_permutation(p.begin(), p.end())); }
    // every step twice, the repetition anywhere after the first
    for (int i = 0; i < n; i++) for (int j = i + 1; j <= n; j++) { vector<int> s = canon; s.insert(s.begin() + j, i); if (!judge(s, nullptr, {}, "repeat")) return; }
    // settings of another configuration that are overwritten, one at a time and in pairs at every earlier place, or all of them first
    for (auto& w : wrongs) {
        Order q; q.wrong = &w; go(k, q); r.execs++; vector<string> wn = q.other; int m = (int)wn.size();
        auto last = [&](const string& s) { for (int i = n - 1; i >= 0; i--) if (base.real[i] == s) return i; return -1; };
        bool covered = true; for (auto& s : wn) covered &= last(s) >= 0;
        if (covered) { vector<int> s; for (int i = 0; i < m; i++) s.push_back(-1 - i); vector<int> z = s; s.insert(s.end(), canon.begin(), canon.end()); if (!judge(s, &w, wn, "overwritten")) return; z.insert(z.end(), rev.begin(), rev.end()); if (!judge(z, &w, wn, "overwritten")) return; }
        bool samep = w.i("p") == k.i("p");
        if (!samep) continue;
        for (int i = 0; i < m; i++) { int l = last(wn[i]); for (int at = 0; at <= l; at++) { vector<int> s = canon; s.insert(s.begin() + at, -1 - i); if (!judge(s, &w, wn, "overwritten")) return;
            if (th || (switchLike(wn[i]))) for (int j = 0; j < m; j++) if (j != i && (th || switchLike(wn[j]))) { int l2 = last(wn[j]); for (int at2 = 0; at2 <= l2; at2++) { if (!th && at2 != at && at2 != 0 && at2 != l2) continue; vector<int> t = canon; int a1 = at, a2 = at2; if (a1 >= a2) { t.insert(t.begin() + a1, -1 - i); t.insert(t.begin() + a2, -1 - j); } else { t.insert(t.begin() + a2, -1 - j); t.insert(t.begin() + a1, -1 - i); } if (!judge(t, &w, wn, "overwritten")) return; } } } }
        // an execution type the algorithm does not offer changes nothing, whenever it is asked for
        KV c = w.with("par", "cuda"); Order qc; qc.wrong = &c; go(k, qc); for (int i = 0; i < (int)qc.other.size(); i++) if (qc.other[i] == "setParallelType") for (int at = 0; at <= n; at++) { vector<int> s = canon; s.insert(s.begin() + at, -1 - i); if (!judge(s, &c, qc.other, "unsupported")) return; }
    }
    r.distinct++; r.samples.push_back(k.str() + fmt(": %llu configuration sequences of %d steps", (unsigned long long)r.states, n));
}
// ---- what is set is what is reported: every sequence of setter calls against a record of the last values
struct Field { string name; vector<std::function<void()>> set; std::function<double()> get; vector<double> val; };   // val NaN: the call must change nothing
void exploreFields(std::function<void(vector<Field>&, vector<std::shared_ptr<void>>&)> make, int depth, Res& r) {
    vector<Field> f0; vector<std::shared_ptr<void>> keep0; make(f0, keep0); struct Op { int f, v; }; vector<Op> ops; for (int i = 0; i < (int)f0.size(); i++) for (int v = 0; v < (int)f0[i].set.size(); v++) ops.push_back({i, v});
    std::function<bool(vector<int>&)> rec = [&](vector<int>& s) -> bool {
        vector<Field> f; vector<std::shared_ptr<void>> keep; make(f, keep); vector<double> model; for (auto& x : f) model.push_back(x.get());
        string tr; for (int o : s) { auto& x = f[ops[o].f]; x.set[ops[o].v](); if (!std::isnan(x.val[ops[o].v])) model[ops[o].f] = x.val[ops[o].v]; tr += " " + x.name + fmt("#%d", ops[o].v); r.transitions++; }
        r.execs++; r.states++; r.validated++;
        for (size_t i = 0; i < f.size(); i++) { double g = f[i].get(); if (!(g == model[i])) { r.bad("getter", fmt("%s is reported as %.17g, set to %.17g, after", f[i].name.c_str(), g, model[i]) + tr); return false; } }
        if ((int)s.size() < depth) for (int o = 0; o < (int)ops.size(); o++) { s.push_back(o); bool c = rec(s); s.pop_back(); if (!c) return false; }
        return true;
    };
    vector<int> s; if (rec(s)) { r.distinct++; r.samples.push_back(fmt("%d fields, %d setter calls, depth %d: %llu sequences", (int)f0.size(), (int)ops.size(), depth, (unsigned long long)r.states)); }
}
template <class F> Field fld(string n, vector<double> vals, F set, std::function<double()> get) { Field f; f.name = n; f.get = get; for (double v : vals) { f.val.push_back(v); f.set.push_back([=]() { set(v); }); } return f; }
template <class A> Field par(A& a, bool omp) { Field f; f.name = "execution type"; f.get = [&a]() { return (double)a.parallelType(); }; vector<ParallelType> t = {ParallelType::SerialOnly, ParallelType::OpenMP, ParallelType::CUDA}; for (auto q : t) { if (q == ParallelType::OpenMP && !omp) continue; f.val.push_back(q == ParallelType::CUDA ? NAN : (double)q); f.set.push_back([&a, q]() { a.setParallelType(q); }); } return f; }
SpatialWeight sw(double bw) { CRSDistance d(false); BandwidthWeight w(bw, true, BandwidthWeight::Gaussian); return SpatialWeight(&w, &d); }
double total(const mat& m) { return m.n_elem ? accu(m) + 1000.0 * m.n_rows + 1e6 * m.n_cols : 0; }
double tot(double v, uword rows, uword cols) { return v * rows * cols + 1000.0 * rows + 1e6 * cols; }
mat fillm(double v, uword rows, uword cols) { mat m(rows, cols); m.fill(v); return m; }
template <class A> void common(A& a, vector<Field>& f) {
    f.push_back(fld("locations", {1, 2}, [&a](double v) { a.setCoords(fillm(v, 5 + (uword)v, 2)); }, [&a]() { return total(a.coords()); })); for (auto& v : f.back().val) v = tot(v, 5 + (uword)v, 2);
}
template <class A> void regr(A& a, vector<Field>& f) {
    f.push_back(fld("response", {1, 2}, [&a](double v) { a.setDependentVariable(vec(fillm(v, 4 + (uword)v, 1))); }, [&a]() { return total(a.dependentVariable()); })); for (auto& v : f.back().val) v = tot(v, 4 + (uword)v, 1);
    f.push_back(fld("variables", {1, 2}, [&a](double v) { a.setIndependentVariables(fillm(v, 6, 1 + (uword)v)); }, [&a]() { return total(a.independentVariables()); })); for (auto& v : f.back().val) v = tot(v, 6, 1 + (uword)v);
    f.push_back(fld("intercept", {0, 1}, [&a](double v) { a.setHasIntercept(v != 0); }, [&a]() { return (double)a.hasIntercept(); }));
    f.push_back(fld("hat matrix", {0, 1}, [&a](double v) { a.setHasHatMatrix(v != 0); }, [&a]() { return (double)a.hasHatMatrix(); }));
}
template <class A> void mono(A& a, vector<Field>& f) { f.push_back(fld("weighting", {7, 9}, [&a](double v) { a.setSpatialWeight(sw(v)); }, [&a]() { const SpatialWeight& s = a.spatialWeight(); return s.weight() ? s.template weight<BandwidthWeight>()->bandwidth() : 0.0; })); }
template <class A> A* own(vector<std::shared_ptr<void>>& keep) { auto p = std::make_shared<A>(); keep.push_back(p); return p.get(); }
void gwrFields(GWRBasic& a, vector<Field>& f) {
    common(a, f); regr(a, f); mono(a, f); f.push_back(par(a, true));
    f.push_back(fld("bandwidth selection", {0, 1}, [&a](double v) { a.setIsAutoselectBandwidth(v != 0); }, [&a]() { return (double)a.isAutoselectBandwidth(); }));
    f.push_back(fld("criterion", {(double)GWRBasic::AIC, (double)GWRBasic::CV}, [&a](double v) { a.setBandwidthSelectionCriterion((GWRBasic::BandwidthSelectionCriterionType)(int)v); }, [&a]() { return (double)a.bandwidthSelectionCriterion(); }));
    f.push_back(fld("variable selection", {0, 1}, [&a](double v) { a.setIsAutoselectIndepVars(v != 0); }, [&a]() { return (double)a.isAutoselectIndepVars(); }));
    f.push_back(fld("variable threshold", {1.5, 4}, [&a](double v) { a.setIndepVarSelectionThreshold(v); }, [&a]() { return a.indepVarSelectionThreshold(); }));
}
typedef vector<std::shared_ptr<void>> Keep;
std::map<string, std::function<void(vector<Field>&, Keep&)>> makers() {
    std::map<string, std::function<void(vector<Field>&, Keep&)>> m;
    m["gwr"] = [](vector<Field>& f, Keep& k) { gwrFields(*own<GWRBasic>(k), f); };
    m["robust"] = [](vector<Field>& f, Keep& k) { auto& a = *own<GWRRobust>(k); gwrFields(a, f); f.push_back(fld("filtered", {0, 1}, [&a](double v) { a.setFiltered(v != 0); }, [&a]() { return (double)a.filtered(); })); };
    m["gtwr"] = [](vector<Field>& f, Keep& k) { auto& a = *own<GTWR>(k); f.push_back(fld("locations", {1, 2}, [&a](double v) { a.setCoords(fillm(v, 5 + (uword)v, 2), vec(fillm(v, 5 + (uword)v, 1))); }, [&a]() { return total(a.coords()); })); for (auto& v : f.back().val) v = tot(v, 5 + (uword)v, 2);
        regr(a, f); mono(a, f); f.push_back(par(a, true));
        f.push_back(fld("bandwidth selection", {0, 1}, [&a](double v) { a.setIsAutoselectBandwidth(v != 0); }, [&a]() { return (double)a.isAutoselectBandwidth(); }));
        f.push_back(fld("criterion", {(double)GTWR::AIC, (double)GTWR::CV}, [&a](double v) { a.setBandwidthSelectionCriterion((GTWR::BandwidthSelectionCriterionType)(int)v); }, [&a]() { return (double)a.bandwidthSelectionCriterion(); })); };
    m["gwdr"] = [](vector<Field>& f, Keep& k) { auto& a = *own<GWDR>(k); common(a, f); regr(a, f); f.push_back(par(a, true));
        f.push_back(fld("weighting", {7, 9}, [&a](double v) { a.setSpatialWeights({sw(v), sw(v + 1)}); }, [&a]() { double t = 0; for (auto& s : a.spatialWeights()) t = 100 * t + s.weight<BandwidthWeight>()->bandwidth(); return t; })); f.back().val = {708, 910};
        f.push_back(fld("criterion", {(double)GWDR::CV, (double)GWDR::AIC}, [&a](double v) { a.setBandwidthCriterionType((GWDR::BandwidthCriterionType)(int)v); }, [&a]() { return (double)a.bandwidthCriterionType(); }));
        f.push_back(fld("tolerance", {1e-3, 0.25}, [&a](double v) { a.setBandwidthOptimizeEps(v); }, [&a]() { return a.bandwidthOptimizeEps(); })); f.push_back(fld("iterations", {7, 1000}, [&a](double v) { a.setBandwidthOptimizeMaxIter((size_t)v); }, [&a]() { return (double)a.bandwidthOptimizeMaxIter(); })); f.push_back(fld("step", {0.5, 0.02}, [&a](double v) { a.setBandwidthOptimizeStep(v); }, [&a]() { return a.bandwidthOptimizeStep(); }));
        f.push_back(fld("variable selection", {0, 1}, [&a](double v) { a.setEnableIndepVarSelect(v != 0); }, [&a]() { return (double)a.enableIndpenVarSelect(); })); f.push_back(fld("variable threshold", {1.5, 4}, [&a](double v) { a.setIndepVarSelectThreshold(v); }, [&a]() { return a.indepVarSelectThreshold(); })); };
    m["mgwr"] = [](vector<Field>& f, Keep& k) { auto& a = *own<GWRMultiscale>(k); a.setIndependentVariables(fillm(1, 6, 2)); a.setSpatialWeights({sw(5), sw(6)}); common(a, f);
        f.push_back(fld("response", {1, 2}, [&a](double v) { a.setDependentVariable(vec(fillm(v, 4 + (uword)v, 1))); }, [&a]() { return total(a.dependentVariable()); })); for (auto& v : f.back().val) v = tot(v, 4 + (uword)v, 1);
        f.push_back(fld("hat matrix", {0, 1}, [&a](double v) { a.setHasHatMatrix(v != 0); }, [&a]() { return (double)a.hasHatMatrix(); })); f.push_back(fld("intercept", {0, 1}, [&a](double v) { a.setHasIntercept(v != 0); }, [&a]() { return (double)a.hasIntercept(); })); f.push_back(par(a, true));
        f.push_back(fld("weighting", {7, 9}, [&a](double v) { a.setSpatialWeights({sw(v), sw(v + 1)}); }, [&a]() { double t = 0; for (auto& s : a.spatialWeights()) t = 100 * t + s.weight<BandwidthWeight>()->bandwidth(); return t; })); f.back().val = {708, 910};
        f.push_back(fld("initialisation", {0, 1, 2}, [&a](double v) { a.setBandwidthInitilize({(GWRMultiscale::BandwidthInitilizeType)(int)v, GWRMultiscale::Specified}); }, [&a]() { double t = 0; for (auto x : a.bandwidthInitilize()) t = t * 10 + x; return t; })); for (auto& v : f.back().val) v = v * 10 + GWRMultiscale::Specified;
        f.push_back(fld("criteria", {0, 1}, [&a](double v) { a.setBandwidthSelectionApproach({(GWRMultiscale::BandwidthSelectionCriterionType)(int)v, GWRMultiscale::AIC}); }, [&a]() { double t = 1; for (auto x : a.bandwidthSelectionApproach()) t = t * 10 + x; return t; })); for (auto& v : f.back().val) v = 100 + v * 10 + GWRMultiscale::AIC;
        f.push_back(fld("centering", {0, 1}, [&a](double v) { a.setPreditorCentered({false, v != 0}); }, [&a]() { double t = 1; for (bool x : a.preditorCentered()) t = t * 10 + x; return t; })); for (auto& v : f.back().val) v = 100 + v;
        f.push_back(fld("thresholds", {1, 2}, [&a](double v) { a.setBandwidthSelectThreshold({v, 5}); }, [&a]() { double t = 0; for (double x : a.bandwidthSelectThreshold()) t = t * 10 + x; return t; })); f.back().val = {15, 25};
        f.push_back(fld("retries", {1, 4}, [&a](double v) { a.setBandwidthSelectRetryTimes((size_t)v); }, [&a]() { return (double)a.bandwidthSelectRetryTimes(); })); f.push_back(fld("iterations", {3, 900}, [&a](double v) { a.setMaxIteration((size_t)v); }, [&a]() { return (double)a.maxIteration(); }));
        f.push_back(fld("backfitting criterion", {(double)GWRMultiscale::CVR, (double)GWRMultiscale::dCVR}, [&a](double v) { a.setCriterionType((GWRMultiscale::BackFittingCriterionType)(int)v); }, [&a]() { return (double)a.criterionType(); })); f.push_back(fld("backfitting threshold", {1e-3, 1e-9}, [&a](double v) { a.setCriterionThreshold(v); }, [&a]() { return a.criterionThreshold(); })); f.push_back(fld("adaptive lower bound", {3, 30}, [&a](double v) { a.setAdaptiveLower((int)v); }, [&a]() { return (double)a.adaptiveLower(); })); };
    m["ggwr"] = [](vector<Field>& f, Keep& k) { auto& a = *own<GWRGeneralized>(k); common(a, f); regr(a, f); mono(a, f); f.push_back(par(a, true));
        f.push_back(fld("family", {(double)GWRGeneralized::Poisson, (double)GWRGeneralized::Binomial}, [&a](double v) { a.setFamily((GWRGeneralized::Family)(int)v); }, [&a]() { return (double)a.getFamily(); })); f.push_back(fld("tolerance", {1e-3, 0.5}, [&a](double v) { a.setTol(v); }, [&a]() { return a.getTol(); })); f.push_back(fld("iterations", {3, 77}, [&a](double v) { a.setMaxiter((size_t)v); }, [&a]() { return (double)a.getMaxiter(); }));
        f.push_back(fld("bandwidth selection", {0, 1}, [&a](double v) { a.setIsAutoselectBandwidth(v != 0); }, [&a]() { return (double)a.autoselectBandwidth(); })); f.push_back(fld("criterion", {(double)GWRGeneralized::AIC, (double)GWRGeneralized::CV}, [&a](double v) { a.setBandwidthSelectionCriterionType((GWRGeneralized::BandwidthSelectionCriterionType)(int)v); }, [&a]() { return (double)a.bandwidthSelectionCriterionType(); })); };
    m["lcr"] = [](vector<Field>& f, Keep& k) { auto& a = *own<GWRLocalCollinearity>(k); common(a, f); regr(a, f); mono(a, f); f.push_back(par(a, true));
        f.push_back(fld("ridge", {0, 0.3}, [&a](double v) { a.setLambda(v); }, [&a]() { return a.lambda(); })); f.push_back(fld("ridge adjustment", {0, 1}, [&a](double v) { a.setLambdaAdjust(v != 0); }, [&a]() { return (double)a.lambdaAdjust(); })); f.push_back(fld("condition threshold", {5, 40}, [&a](double v) { a.setCnThresh(v); }, [&a]() { return a.cnThresh(); }));
        f.push_back(fld("bandwidth selection", {0, 1}, [&a](double v) { a.setIsAutoselectBandwidth(v != 0); }, [&a]() { return (double)a.isAutoselectBandwidth(); })); };
    m["scal"] = [](vector<Field>& f, Keep& k) { auto& a = *own<GWRScalable>(k); common(a, f); regr(a, f); mono(a, f);
        f.push_back(fld("order", {2, 5}, [&a](double v) { a.setPolynomial((uword)v); }, [&a]() { return (double)a.polynomial(); })); f.push_back(fld("criterion", {(double)GWRScalable::AIC, (double)GWRScalable::CV}, [&a](double v) { a.setParameterOptimizeCriterion((GWRScalable::BandwidthSelectionCriterionType)(int)v); }, [&a]() { return (double)a.parameterOptimizeCriterion(); })); };
    m["gwss"] = [](vector<Field>& f, Keep& k) { auto& a = *own<GWSS>(k); common(a, f); mono(a, f); f.push_back(par(a, true));
        f.push_back(fld("variables", {1, 2}, [&a](double v) { a.setVariables(fillm(v, 6, 1 + (uword)v)); }, [&a]() { return total(a.variables()); })); for (auto& v : f.back().val) v = tot(v, 6, 1 + (uword)v);
        f.push_back(fld("quantiles", {0, 1}, [&a](double v) { a.setQuantile(v != 0); }, [&a]() { return (double)a.quantile(); })); f.push_back(fld("first only", {0, 1}, [&a](double v) { a.setIsCorrWithFirstOnly(v != 0); }, [&a]() { return (double)a.isCorrWithFirstOnly(); })); };
    m["gwpca"] = [](vector<Field>& f, Keep& k) { auto& a = *own<GWPCA>(k); common(a, f); mono(a, f); f.push_back(fld("components", {1, 3}, [&a](double v) { a.setKeepComponents((int)v); }, [&a]() { return (double)a.keepComponents(); })); f.push_back(fld("variables", {1, 2}, [&a](double v) { a.setVariables(fillm(v, 6, 1 + (uword)v)); }, [&a]() { return total(a.variables()); })); for (auto& v : f.back().val) v = tot(v, 6, 1 + (uword)v); };
    m["gwda"] = [](vector<Field>& f, Keep& k) { auto& a = *own<GWDA>(k); common(a, f); mono(a, f); f.push_back(par(a, true)); f.push_back(fld("variables", {1, 2}, [&a](double v) { a.setVariables(fillm(v, 6, 1 + (uword)v)); }, [&a]() { return total(a.variables()); })); for (auto& v : f.back().val) v = tot(v, 6, 1 + (uword)v);
        f.push_back(fld("quadratic", {0, 1}, [&a](double v) { a.setIsWqda(v != 0); }, [&a]() { return (double)a.isWqda(); })); f.push_back(fld("local covariance", {0, 1}, [&a](double v) { a.setHascov(v != 0); }, [&a]() { return (double)a.hasCov(); })); f.push_back(fld("local mean", {0, 1}, [&a](double v) { a.setHasmean(v != 0); }, [&a]() { return (double)a.hasMean(); })); f.push_back(fld("local prior", {0, 1}, [&a](double v) { a.setHasprior(v != 0); }, [&a]() { return (double)a.hasPrior(); })); };
    return m;
}
// ---- a selection with an untouched criterion is the selection with the reported one; constructors are setters
void caseDefaults(Res& r) {
    KV k("algo=gwr;n=12;p=2;seed=3"); Data d = makeData(k);
    auto same = [&](const char* what, const mat& x, double b1, const mat& y, double b2) { r.execs += 2; r.states++; r.transitions += 2; r.validated++; string q = diffMat(x, y, 1e-9); if (!q.empty() || b1 != b2) r.bad("default", string(what) + ": " + q + fmt(" bandwidths %g and %g", b1, b2)); };
    auto bwOf = [](const SpatialWeight& s) { return s.weight<BandwidthWeight>()->bandwidth(); };
    CRSDistance cd(false); BandwidthWeight w(60, false, BandwidthWeight::Gaussian); SpatialWeight s(&w, &cd);
    BandwidthWeight wa(8, true, BandwidthWeight::Gaussian); SpatialWeight sa(&wa, &cd);
    for (int thr : {0, 2}) { auto setPar = [&](auto& a) { if (thr) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(thr); } }; rt::ompCfg = rt::OmpConfig(); rt::ompCfg.maxThreads = 2; rt::ompBegin();
        { GWRBasic a(d.x, d.y, d.coords, s), b(d.x, d.y, d.coords, s); a.setIsAutoselectBandwidth(true); b.setIsAutoselectBandwidth(true); a.setGoldenLowerBounds(30); a.setGoldenUpperBounds(90); b.setGoldenLowerBounds(30); b.setGoldenUpperBounds(90); setPar(a); setPar(b); b.setBandwidthSelectionCriterion(a.bandwidthSelectionCriterion()); mat x = a.fit(), y = b.fit(); same("basic, default criterion", x, bwOf(a.spatialWeight()), y, bwOf(b.spatialWeight())); }
        { GTWR a, b; CRSDistance s1(false); OneDimDistance t1; CRSSTDistance st(&s1, &t1, 0.4); SpatialWeight sst(&w, &st); for (GTWR* q : {&a, &b}) { q->setCoords(d.coords, d.times); q->setDependentVariable(d.y); q->setIndependentVariables(d.x); q->setSpatialWeight(sst); q->setIsAutoselectBandwidth(true); q->setHasHatMatrix(true); setPar(*q); } b.setBandwidthSelectionCriterion(a.bandwidthSelectionCriterion()); mat x = a.fit(), y = b.fit(); same("space-time, default criterion", x, bwOf(a.spatialWeight()), y, bwOf(b.spatialWeight())); }
        { KV kp("algo=ggwr;n=14;p=2;fam=poisson"); Data g = makeData(kp); GWRGeneralized a, b; for (auto* q : {&a, &b}) { q->setCoords(g.coords); q->setDependentVariable(g.y); q->setIndependentVariables(g.x); q->setSpatialWeight(s); q->setFamily(GWRGeneralized::Poisson); q->setIsAutoselectBandwidth(true); q->setHasHatMatrix(true); setPar(*q); } b.setBandwidthSelectionCriterionType(a.bandwidthSelectionCriterionType()); mat x = a.fit(), y = b.fit(); same("generalized, default criterion", x, bwOf(a.spatialWeight()), y, bwOf(b.spatialWeight()));
          GWRGeneralized c; GWRGeneralized* q = &c; q->setCoords(g.coords); q->setDependentVariable(g.y); q->setIndependentVariables(g.x); q->setSpatialWeight(s); setPar(c); GWRGeneralized e; e.setCoords(g.coords); e.setDependentVariable(g.y); e.setIndependentVariables(g.x); e.setSpatialWeight(s); e.setFamily(c.getFamily()); e.setHasHatMatrix(c.hasHatMatrix()); e.setTol(c.getTol()); e.setMaxiter(c.getMaxiter()); setPar(e); mat x2 = c.fit(), y2 = e.fit(); same("generalized, reported defaults", x2, bwOf(c.spatialWeight()), y2, bwOf(e.spatialWeight())); }
        { GWRLocalCollinearity a, b; for (auto* q : {&a, &b}) { q->setCoords(d.coords); q->setDependentVariable(d.y); q->setIndependentVariables(d.x); q->setSpatialWeight(s); q->setIsAutoselectBandwidth(true); setPar(*q); } b.setBandwidthSelectionCriterion(a.bandwidthSelectionCriterion()); b.setLambda(a.lambda()); b.setLambdaAdjust(a.lambdaAdjust()); b.setCnThresh(a.cnThresh()); b.setHasHatMatrix(a.hasHatMatrix()); mat x = a.fit(), y = b.fit(); same("locally compensated, defaults", x, bwOf(a.spatialWeight()), y, bwOf(b.spatialWeight())); }
        { GWDR a, b; BandwidthWeight v(60, false, BandwidthWeight::Gaussian); OneDimDistance od; vector<SpatialWeight> q2(2, SpatialWeight(&v, &od)); for (auto* q : {&a, &b}) { q->setCoords(d.coords); q->setDependentVariable(d.y); q->setIndependentVariables(d.x); q->setSpatialWeights(q2); q->setEnableBandwidthOptimize(true); q->setHasHatMatrix(true); q->setBandwidthOptimizeEps(0.05); setPar(*q); } b.setBandwidthCriterionType(a.bandwidthCriterionType()); b.setBandwidthOptimizeMaxIter(a.bandwidthOptimizeMaxIter()); b.setBandwidthOptimizeStep(a.bandwidthOptimizeStep()); mat x = a.fit(), y = b.fit(); same("density, defaults", x, bwOf(a.spatialWeights()[0]), y, bwOf(b.spatialWeights()[0])); same("density, defaults", x, bwOf(a.spatialWeights()[1]), y, bwOf(b.spatialWeights()[1])); }
        rt::ompEnd(); }
    { GWRScalable a, b; BandwidthWeight v(9, true, BandwidthWeight::Gaussian); SpatialWeight q2(&v, &cd); for (auto* q : {&a, &b}) { q->setCoords(d.coords); q->setDependentVariable(d.y); q->setIndependentVariables(d.x); q->setSpatialWeight(q2); } b.setParameterOptimizeCriterion(a.parameterOptimizeCriterion()); b.setPolynomial(a.polynomial()); b.setHasHatMatrix(a.hasHatMatrix()); mat x = a.fit(), y = b.fit(); same("scalable, defaults", x, a.scale(), y, b.scale()); }
    // constructors
    for (int hat : {0, 1}) for (int ic : {0, 1}) {
        { GWRBasic a(d.x, d.y, d.coords, sa, hat, ic), b; b.setCoords(d.coords); b.setDependentVariable(d.y); b.setIndependentVariables(d.x); b.setSpatialWeight(sa); b.setHasHatMatrix(hat); b.setHasIntercept(ic); if (a.hasHatMatrix() != (bool)hat || a.hasIntercept() != (bool)ic) r.bad("constructor", "basic: flags are not the ones given"); mat x = a.fit(), y = b.fit(); same("basic, constructor", x, a.diagnostic().AICc, y, b.diagnostic().AICc); same("basic, constructor", a.betasSE(), 0, b.betasSE(), 0); }
        { CRSDistance s1(false); OneDimDistance t1; CRSSTDistance st(&s1, &t1, 0.4); SpatialWeight sst(&wa, &st); GTWR a(d.x, d.y, d.coords, sst, hat, ic), b; a.setCoords(d.coords, d.times); b.setCoords(d.coords, d.times); b.setDependentVariable(d.y); b.setIndependentVariables(d.x); b.setSpatialWeight(sst); b.setHasHatMatrix(hat); b.setHasIntercept(ic); if (a.hasHatMatrix() != (bool)hat || a.hasIntercept() != (bool)ic) r.bad("constructor", "space-time: flags are not the ones given"); mat x = a.fit(), y = b.fit(); same("space-time, constructor", x, a.diagnostic().AICc, y, b.diagnostic().AICc); same("space-time, constructor", a.betasSE(), 0, b.betasSE(), 0); }
        { OneDimDistance od; vector<SpatialWeight> q2(2, SpatialWeight(&wa, &od)); GWDR a(d.x, d.y, d.coords, q2, hat, ic), b; b.setCoords(d.coords); b.setDependentVariable(d.y); b.setIndependentVariables(d.x); b.setSpatialWeights(q2); b.setHasHatMatrix(hat); b.setHasIntercept(ic); if (a.hasHatMatrix() != (bool)hat || a.hasIntercept() != (bool)ic) r.bad("constructor", "density: flags are not the ones given"); mat x = a.fit(), y = b.fit(); same("density, constructor", x, a.diagnostic().AICc, y, b.diagnostic().AICc); same("density, constructor", a.betasSE(), 0, b.betasSE(), 0); }
    }
    { Data g = makeData(KV("algo=gwss;n=10;p=3;icpt=0")); GWSS a(g.x, g.coords, sa), b; b.setCoords(g.coords); b.setVariables(g.x); b.setSpatialWeight(sa); a.run(); b.run(); same("summary, constructor", a.localMean(), 0, b.localMean(), 0); same("summary, constructor", a.localSkewness(), 0, b.localSkewness(), 0); b.setGWSSMode(GWSS::GWSSMode::Average); b.setQuantile(a.quantile()); b.run(); same("summary, default mode", a.localVar(), 0, b.localVar(), 0); }
    { Data g = makeData(KV("algo=gwpca;n=10;p=3;icpt=0")); GWPCA a(g.x, g.coords, sa), b; b.setCoords(g.coords); b.setVariables(g.x); b.setSpatialWeight(sa); a.setKeepComponents(2); b.setKeepComponents(2); a.run(); b.run(); same("components, constructor", a.localPV(), 0, b.localPV(), 0); }
    { Data g = makeData(KV("algo=gwda;n=14;p=2;ng=2;icpt=0")); GWDA a(g.x, g.coords, sa), b; b.setCoords(g.coords); b.setVariables(g.x); b.setSpatialWeight(sa); auto q = g.groups; a.setGroup(q); b.setGroup(q); b.setIsWqda(a.isWqda()); b.setHascov(a.hasCov()); b.setHasmean(a.hasMean()); b.setHasprior(a.hasPrior()); a.run(); b.run(); same("discriminant, constructor", a.res(), a.correctRate(), b.res(), b.correctRate()); same("discriminant, constructor", a.probs(), 0, b.probs(), 0); }
    { Data g = makeData(KV("algo=mgwr;n=10;p=2")); auto prep = [&](GWRMultiscale& a) { a.setBandwidthInitilize({GWRMultiscale::Null, GWRMultiscale::Null}); a.setBandwidthSelectionApproach({GWRMultiscale::CV, GWRMultiscale::CV}); a.setPreditorCentered({false, true}); a.setBandwidthSelectThreshold({1e-5, 1e-5}); a.setBandwidthSelectRetryTimes(1); a.setMaxIteration(3); a.setAdaptiveLower(6); };
      vector<SpatialWeight> q2{sa, sa}; GWRMultiscale a(g.x, g.y, g.coords, q2), b; b.setIndependentVariables(g.x); b.setDependentVariable(g.y); b.setCoords(g.coords); b.setSpatialWeights(q2); prep(a); prep(b); mat x = a.fit(), y = b.fit(); same("multiscale, constructor", x, bwOf(a.spatialWeights()[0]), y, bwOf(b.spatialWeights()[0])); }
    r.distinct++; r.samples.push_back(fmt("%llu comparisons of defaults and constructors", (unsigned long long)r.states));
}
}
static Reg c24("C24", [](vector<Case>& cs, bool th) {
    struct S { string base; vector<string> alts; };
    vector<S> specs = {
        {"algo=gwr;n=10;thd=1;lo=6;hi=10;filt=0", {"p=2;bw=8;hat=1;par=serial", "p=2;bw=8;hat=1;sel=cv;par=serial", "p=2;bw=7;hat=0;sel=aic;par=omp;thr=2;kernel=2", "p=2;bw=8;hat=1;par=omp;thr=3;storeS=1;storeC=1", "p=3;bw=9;hat=1;var=1;sel=cv;par=omp;thr=2", "p=3;bw=9;hat=1;var=1;par=serial;seed=4"}},
        {"algo=robust;n=12;lo=7;hi=12;layout=outlier", {"p=2;bw=9;filt=0;par=serial", "p=2;bw=9;filt=1;par=omp;thr=2", "p=2;bw=8;filt=1;par=serial;sel=cv"}},
        {"algo=gtwr;n=10;p=2", {"bw=8;lambda=0.4;par=serial", "bw=60;adaptive=0;sel=cv;par=serial", "bw=60;adaptive=0;sel=aic;par=omp;thr=2;lambda=0.7", "bw=7;par=omp;thr=2;hat=0;seed=4", "bw=8;autolam=1;par=serial"}},
        {"algo=gwdr;n=10;bweps=0.05;maxit=100", {"p=2;bw=8;bw2=9;par=serial", "p=2;bw=60;bw2=60;adaptive=0;sel=cv;par=serial", "p=2;bw=60;bw2=60;adaptive=0;sel=aic;par=omp;thr=2;kernel=0", "p=3;bw=9;bw2=9;var=1;thd=1;par=omp;thr=2", "p=2;bw=7;bw2=9;hat=0;dims=3;par=omp;thr=2"}},
        {"algo=mgwr;n=9;p=2;lo=6;hi=9;alow=6;retry=1", {"bw=7;maxit=3;par=serial;hat=1", "bw=7;sel=cv;maxit=2;par=serial;hat=1", "bw=8;sel=aic;init=init;maxit=2;par=omp;thr=2;hat=1;crit=cvr", "bw=7;bw1=8;maxit=2;par=omp;thr=2;center=1;hat=0"}},
        {"algo=ggwr;n=12;p=2;maxit=4;tol=1e-4", {"fam=poisson;bw=10;par=serial", "fam=binomial;bw=12;par=serial;seed=4", "fam=poisson;bw=80;adaptive=0;sel=cv;par=serial", "fam=poisson;bw=80;adaptive=0;sel=aic;par=omp;thr=2", "fam=binomial;bw=80;adaptive=0;sel=cv;par=omp;thr=2", "fam=binomial;bw=11;par=omp;thr=2;hat=0"}},
        {"algo=lcr;n=10;p=2;cn=3", {"bw=8;lam=0;par=serial", "bw=8;lam=0.2;ladj=1;par=serial", "bw=60;adaptive=0;sel=cv;par=omp;thr=2;ladj=1", "bw=8;hat=0;par=omp;thr=2"}},
        {"algo=scal;n=12;p=2", {"bw=9;sel=cv", "bw=9;sel=aic;poly=2;seed=4", "bw=7;sel=cv;kernel=1;hat=0"}},
        {"algo=gwss;n=9", {"p=2;bw=6;mode=avg;quant=1;par=serial", "p=2;bw=6;mode=cor;par=serial;kernel=2", "p=2;bw=7;mode=avg;quant=1;par=omp;thr=2", "p=2;bw=7;mode=cor;first=1;par=omp;thr=2", "p=3;bw=7;mode=cor;par=omp;thr=3"}},
        {"algo=gwpca;n=9;p=3", {"bw=7;k=2", "bw=8;k=1;seed=4", "bw=7;k=3;kernel=2"}},
        {"algo=gwda;n=14;p=2", {"bw=12;ng=2;par=serial", "bw=12;ng=2;wqda=1;par=omp;thr=2", "bw=13;ng=3;hcov=0;hprior=0;par=omp;thr=2;seed=4", "bw=12;ng=2;wqda=1;hmean=0;par=serial"}},
    };
    for (auto& s : specs) { vector<KV> ks; for (auto& a : s.alts) { KV k(s.base); KV x(a); for (auto& p : x.m) k = k.with(p.first, p.second); ks.push_back(k); }
        for (size_t i = 0; i < ks.size(); i++) { vector<KV> w; for (size_t j = 0; j < ks.size(); j++) if (j != i) w.push_back(ks[j]); cs.push_back({"orders:" + ks[i].str(), [=](Res& r) { caseOrders(ks[i], w, th, r); }, th ? 800 : 200}); } }
    for (auto& m : makers()) { auto f = m.second; cs.push_back({"record:" + m.first, [=](Res& r) { exploreFields(f, th ? 4 : 3, r); }, 400}); }
    cs.push_back({"defaults", [](Res& r) { caseDefaults(r); }, 200});
});
