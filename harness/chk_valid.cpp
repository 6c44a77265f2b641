// C26: the validity check accepts exactly the complete and consistent configurations.
#include "common.h"
#include "scen.h"
#include "gwmodelpp/GWRBasic.h"
#include "gwmodelpp/GWRRobust.h"
#include "gwmodelpp/GWRGeneralized.h"
#include "gwmodelpp/GWRLocalCollinearity.h"
#include "gwmodelpp/GWRScalable.h"
#include "gwmodelpp/GWRMultiscale.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/GWDR.h"
#include "gwmodelpp/GWSS.h"
#include "gwmodelpp/GWPCA.h"
#include "gwmodelpp/GWDA.h"
using std::string; using std::vector; using namespace arma; using namespace gwm;
namespace {
typedef BandwidthWeight BW;
// part sizes: rows of coordinates, covariates and response (0: not given), columns of the covariates
struct Cfg { int c, x, p, y; double bw; int adaptive; int kernel; int weight; };   // weight: 0 none, 1 kernel and distance
const int N = 12;
Data base() { return makeData(KV("algo=gwr;n=13;p=3;seed=3")); }
mat rows(const mat& m, int n, int p = -1) { if (n == 0) return mat(); mat r = m.rows(0, n - 1); if (p >= 0) r = p ? mat(r.cols(0, p - 1)) : mat(r.n_rows, 0); return r; }
vec rowsv(const vec& m, int n) { if (n == 0) return vec(); return m.rows(0, n - 1); }
SpatialWeight weightOf(const Cfg& c) { CRSDistance d(false); BW w(c.bw, c.adaptive != 0, (BW::KernelFunctionType)c.kernel); return SpatialWeight(&w, &d); }
string show(const Cfg& c) { return fmt("coordinates %d rows, covariates %dx%d, response %d, %s bandwidth %g, kernel %d%s", c.c, c.x, c.x ? c.p : 0, c.y, c.adaptive ? "adaptive" : "fixed", c.bw, c.kernel, c.weight ? "" : ", no weighting scheme"); }
template <class A> void put(A& a, const Cfg& c, const Data& d) { a.setCoords(rows(d.coords, c.c)); a.setIndependentVariables(rows(d.x, c.x, c.p)); a.setDependentVariable(rowsv(d.y, c.y)); if (c.weight) a.setSpatialWeight(weightOf(c)); }
template <> void put(GTWR& a, const Cfg& c, const Data& d) { a.setCoords(rows(d.coords, c.c), rowsv(vec(13, fill::ones), c.c)); a.setIndependentVariables(rows(d.x, c.x, c.p)); a.setDependentVariable(rowsv(d.y, c.y)); if (c.weight) { SpatialWeight w = weightOf(c); CRSDistance sd(false); OneDimDistance td; CRSSTDistance st(&sd, &td, 0.3); w.setDistance(&st); a.setSpatialWeight(w); } }
template <class A> void putV(A& a, const Cfg& c, const Data& d) { a.setCoords(rows(d.coords, c.c)); a.setVariables(rows(d.x, c.x, c.p)); if (c.weight) a.setSpatialWeight(weightOf(c)); }
bool cov(const Cfg& c) { return c.x > 0 && c.p > 0; }
bool regr(const Cfg& c) { return c.c > 0 && cov(c) && c.x == c.y && c.x == c.c; }
bool expectBw(const Cfg& c) { return regr(c) && c.weight && c.bw > 0; }
bool expectScal(const Cfg& c) { return expectBw(c) && (c.kernel == 0 || c.kernel == 1); }
bool expectRegr(const Cfg& c) { return regr(c); }
bool expectSum(const Cfg& c) { return c.c > 0 && cov(c); }
const double BWS[] = {8, 0.5, 0, -1, NAN, INFINITY, 1e300, 1e-300};
// all parts x all faults
template <class A, class P, class X> void all(Res& r, const char* name, P put, X expect, bool resp, bool again) {
    Data d = base(); uint64_t yes = 0, no = 0;
    vector<Cfg> cs; for (int c : {0, N - 1, N}) for (int x : {0, N - 1, N}) for (int p : {0, 1, 3}) for (int y : (resp ? vector<int>{0, N - 1, N} : vector<int>{N})) for (double bw : BWS) for (int ad = 0; ad < 2; ad++) for (int k = 0; k < 5; k++) for (int w = 0; w < 2; w++) { if (!w && (k || ad || bw != 8)) continue; cs.push_back({c, x, p, y, bw, ad, k, w}); }
    string done;
    for (auto& c : cs) {
        A a; put(a, c, d); bool e = expect(c), g = a.isValid(), g2 = a.isValid(); r.execs++; r.states++; r.transitions += 2; r.validated++; (e ? yes : no)++;
        if (g != e || g2 != e) { r.bad("wrong", string(name) + ": " + show(c) + (e ? " is refused" : " is accepted")); return; }
    }
    // the answer is about the present configuration, not an earlier one
    if (again) for (size_t i = 0; i < cs.size(); i += 37) for (size_t j = 0; j < cs.size(); j += 41) {
        if (!cs[i].weight || !cs[j].weight) continue; A a; put(a, cs[i], d); bool g1 = a.isValid(); put(a, cs[j], d); bool g2 = a.isValid(); r.execs++; r.states++; r.transitions += 2; r.validated++;
        if (g1 != expect(cs[i]) || g2 != expect(cs[j])) { r.bad("history", string(name) + ": " + show(cs[i]) + ", then " + show(cs[j])); return; }
    }
    r.distinct += 2; r.ctr["accepted"] += yes; r.ctr["refused"] += no; r.samples.push_back(string(name) + fmt(": %llu configurations to accept, %llu to refuse", (unsigned long long)yes, (unsigned long long)no));
}
void pca(Res& r) {
    Data d = base(); for (int c : {0, N}) for (int k = -2; k < 5; k++) for (int w = 0; w < 2; w++) { Cfg q{c, N, 3, N, 8, 1, 0, w}; GWPCA a; putV(a, q, d); a.setKeepComponents(k); bool g = a.isValid(), e = c > 0 && k > 0; r.execs++; r.states++; r.transitions++; r.validated++; r.distinct++; if (g != e) { r.bad("wrong", fmt("principal components: %d to keep, %d coordinates ", k, c) + (e ? "refused" : "accepted")); return; } }
    r.samples.push_back("gwpca");
}
void gwdr(Res& r) {
    Data d = base(); for (int dims = 0; dims <= 3; dims++) for (int c : {0, N}) for (int w = 0; w <= 4; w++) {
        GWDR a; mat cs = c && dims ? randu(N, dims) : mat(); a.setCoords(cs); vector<SpatialWeight> sw; for (int i = 0; i < w; i++) { OneDimDistance od; BW b(8, true, BW::Gaussian); sw.push_back(SpatialWeight(&b, &od)); }
        a.setSpatialWeights(sw); a.setIndependentVariables(d.x.rows(0, N - 1)); a.setDependentVariable(d.y.rows(0, N - 1)); bool e = !cs.is_empty() && w == (int)cs.n_cols, g = a.isValid(); r.execs++; r.states++; r.transitions++; r.validated++; r.distinct++;
        if (g != e) { r.bad("wrong", fmt("density regression: %d coordinate dimensions, %d weights ", (int)cs.n_cols, w) + (e ? "refused" : "accepted")); return; } }
    r.samples.push_back("gwdr");
}
// per-variable settings of the multiscale model
void mgwr(Res& r, int nv) {
    Data d = base(); typedef GWRMultiscale M; const double bws[] = {-1, 0, 0.5, 1, 1.5, 8, NAN};
    auto fill = [&](M& a, int p) { a.setCoords(rows(d.coords, N)); a.setDependentVariable(rowsv(d.y, N)); a.setIndependentVariables(rows(d.x, N, p)); a.setBandwidthInitilize(vector<M::BandwidthInitilizeType>(p, M::Null)); a.setBandwidthSelectionApproach(vector<M::BandwidthSelectionCriterionType>(p, M::CV)); a.setPreditorCentered(vector<bool>(p, false)); a.setBandwidthSelectThreshold(vector<double>(p, 1e-5)); };
    auto sws = [&](int m, int at, double bw, int ad) { vector<SpatialWeight> v; for (int i = 0; i < m; i++) { CRSDistance cd(false); BW b(i == at ? bw : 8, i == at ? ad != 0 : true, BW::Gaussian); v.push_back(SpatialWeight(&b, &cd)); } return v; };
    auto test = [&](M& a, bool e, const string& what) { bool g = a.isValid(); r.execs++; r.states++; r.transitions++; r.validated++; r.distinct++; if (g != e) { r.bad("wrong", what + (e ? ": refused" : ": accepted")); return false; } return true; };
    { M a; if (!test(a, false, "nothing configured")) return; }
    // every variable in turn, every way its bandwidth starts, every bandwidth
    for (int at = 0; at < nv; at++) for (int init = 0; init < 3; init++) for (double bw : bws) for (int ad = 0; ad < 2; ad++) {
        M a; fill(a, nv); vector<M::BandwidthInitilizeType> bi(nv, M::Null); bi[at] = (M::BandwidthInitilizeType)init; a.setBandwidthInitilize(bi); a.setSpatialWeights(sws(nv, at, bw, ad));
        if (std::isnan(bw)) continue;
        bool e = bi[at] == M::Null || (ad ? bw > 1 : bw >= 0);
        if (!test(a, e, fmt("variable %d of %d starts %s from %s bandwidth %g", at, nv, init == 0 ? "null" : init == 1 ? "initial" : "specified", ad ? "adaptive" : "fixed", bw))) return;
    }
    for (int at = 0; at < nv; at++) for (int init = 1; init < 3; init++) { M a; fill(a, nv); vector<M::BandwidthInitilizeType> bi(nv, M::Null); bi[at] = (M::BandwidthInitilizeType)init; a.setBandwidthInitilize(bi); auto w = sws(nv, -1, 0, 0); w[at] = SpatialWeight(); a.setSpatialWeights(w); if (!test(a, false, fmt("no bandwidth to start variable %d of %d from", at, nv))) return; }
    for (int m = 0; m <= 4; m++) { M a; fill(a, nv); a.setSpatialWeights(sws(m, -1, 0, 0)); if (!test(a, m == nv, fmt("%d weights for %d variables", m, nv))) return; }
    // settings made for another number of variables
    for (int p = 1; p <= 3; p++) { M a; fill(a, nv); a.setSpatialWeights(sws(p, -1, 0, 0)); a.setIndependentVariables(rows(d.x, N, p)); if (!test(a, p == nv, fmt("settings for %d variables, now %d", nv, p))) return; }
    for (int what = 0; what < 4; what++) for (int p = 1; p <= 3; p++) { M a; fill(a, p); a.setIndependentVariables(rows(d.x, N, nv)); a.setSpatialWeights(sws(nv, -1, 0, 0));
        for (int q = 0; q < 4; q++) { if (q == what) continue; if (q == 0) a.setBandwidthInitilize(vector<M::BandwidthInitilizeType>(nv, M::Null)); if (q == 1) a.setBandwidthSelectionApproach(vector<M::BandwidthSelectionCriterionType>(nv, M::CV)); if (q == 2) a.setPreditorCentered(vector<bool>(nv, false)); if (q == 3) a.setBandwidthSelectThreshold(vector<double>(nv, 1e-5)); }
        if (!test(a, p == nv, fmt("setting %d made for %d of %d variables", what, p, nv))) return; }
    { M a; fill(a, nv); a.setSpatialWeights(sws(nv, -1, 0, 0)); a.setIndependentVariables(mat()); if (!test(a, false, "no covariates")) return; }
    // settings of a wrong length are refused and change nothing
    for (int m = 0; m <= 4; m++) if (m != nv) for (int what = 0; what < 2; what++) { M a; fill(a, nv); a.setSpatialWeights(sws(nv, -1, 0, 0)); bool threw = false;
        try { if (what == 0) a.setBandwidthInitilize(vector<M::BandwidthInitilizeType>(m, M::Specified)); else a.setBandwidthSelectionApproach(vector<M::BandwidthSelectionCriterionType>(m, M::AIC)); } catch (const std::length_error&) { threw = true; }
        r.execs++; r.states++; r.transitions++; r.validated++; if (!threw) { r.bad("length", fmt("%d settings for %d variables are not refused", m, nv)); return; }
        if (a.bandwidthInitilize() != vector<M::BandwidthInitilizeType>(nv, M::Null) || a.bandwidthSelectionApproach() != vector<M::BandwidthSelectionCriterionType>(nv, M::CV)) { r.bad("length", "a refused setting changed the configuration"); return; } }
    r.samples.push_back(fmt("mgwr with %d variables", nv));
}
// asking changes nothing: the calculation after the question equals the one without
template <class A, class P> void inert(Res& r, const char* name, P put) {
    Data d = base(); for (int ad = 0; ad < 2; ad++) for (int k = 0; k < 2; k++) for (int when = 0; when < 3; when++) { Cfg c{N, N, 2, N, ad ? 24.0 : 50.0, ad, k, 1}; mat want, got; { A a; put(a, c, d); want = a.fit(); } { A a; if (when == 1) a.isValid(); put(a, c, d); if (when != 1) a.isValid(); if (when == 2) { Cfg b = c; b.bw = -1; put(a, b, d); a.isValid(); put(a, c, d); } got = a.fit(); }
        r.execs += 2; r.states++; r.transitions++; r.validated++; string e = diffMat(want, got, 1e-12); if (!e.empty()) { r.bad("changes", string(name) + ": asking for validity changes the result: " + e); return; } }
    r.samples.push_back(string(name) + ": asking changes nothing");
}
}
static Reg reg("C26", [](vector<Case>& cs, bool) {
    #define REG(T) cs.push_back({#T, [](Res& r) { all<T>(r, #T, [](T& a, const Cfg& c, const Data& d) { put(a, c, d); }, EXP, true, true); }})
    #define EXP expectBw
    REG(GWRBasic); REG(GWRRobust); REG(GTWR);
    #undef EXP
    #define EXP expectScal
    REG(GWRScalable);
    #undef EXP
    #define EXP expectRegr
    REG(GWRLocalCollinearity); REG(GWRGeneralized);
    cs.push_back({"GWSS", [](Res& r) { all<GWSS>(r, "GWSS", [](GWSS& a, const Cfg& c, const Data& d) { putV(a, c, d); }, expectSum, false, true); }});
    cs.push_back({"GWDA", [](Res& r) { all<GWDA>(r, "GWDA", [](GWDA& a, const Cfg& c, const Data& d) { putV(a, c, d); }, expectSum, false, true); }});
    cs.push_back({"GWPCA", pca}); cs.push_back({"GWDR", gwdr});
    for (int p = 1; p <= 3; p++) cs.push_back({fmt("GWRMultiscale p=%d", p), [=](Res& r) { mgwr(r, p); }});
    #define INERT(T) cs.push_back({#T " inert", [](Res& r) { inert<T>(r, #T, [](T& a, const Cfg& c, const Data& d) { put(a, c, d); }); }})
    INERT(GWRBasic); INERT(GWRRobust); INERT(GTWR); INERT(GWRScalable); INERT(GWRLocalCollinearity);
});
