// Scenario = one configured use of the public API on a tiny data set.
#include "common.h"
#include <mpi.h>
#include "gwmodelpp/GWRBasic.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/GWDR.h"
#include "gwmodelpp/GWRMultiscale.h"
#include "gwmodelpp/GWRRobust.h"
#include "gwmodelpp/GWRGeneralized.h"
#include "gwmodelpp/GWRLocalCollinearity.h"
#include "gwmodelpp/GWRScalable.h"
#include "gwmodelpp/GWSS.h"
#include "gwmodelpp/GWPCA.h"
#include "gwmodelpp/GWDA.h"
#include "scen.h"
using namespace arma; using namespace gwm;

long gDistCalls = 0;
namespace {
class CountedDistance : public CRSDistance {                    // plane distance that counts its evaluations
public:
    explicit CountedDistance() : CRSDistance(false) {}
    CountedDistance(const CountedDistance& o) : CRSDistance(o) {}
    Distance* clone() const override { return new CountedDistance(*this); }
    vec distance(uword focus) override { { rt::EnvGuard g; gDistCalls++; } return CRSDistance::distance(focus); }
};
class CountedLine : public OneDimDistance {
public:
    CountedLine() {}
    CountedLine(const CountedLine& o) : OneDimDistance(o) {}
    Distance* clone() const override { return new CountedLine(*this); }
    vec distance(uword focus) override { { rt::EnvGuard g; gDistCalls++; } return OneDimDistance::distance(focus); }
};
}
std::unique_ptr<Distance> makeDistance(const KV& k) {
    std::string t = k.s("dist", "crs");
    if (t == "crs" && k.i("count")) return std::unique_ptr<Distance>(new CountedDistance());
    if (t == "geo") return std::unique_ptr<Distance>(new CRSDistance(true));
    if (t == "mink") return std::unique_ptr<Distance>(new MinkwoskiDistance(k.d("mp", 2), k.d("mth", 0)));
    if (t == "st") {
        CRSDistance plain(k.i("geo", 0) != 0); CountedDistance counted; CRSDistance& sd = k.i("count") ? counted : plain; OneDimDistance td; double l = k.d("lambda", 0.5);
        if (k.has("angle")) return std::unique_ptr<Distance>(new CRSSTDistance(&sd, &td, l, k.d("angle")));
        return std::unique_ptr<Distance>(new CRSSTDistance(&sd, &td, l));
    }
    return std::unique_ptr<Distance>(new CRSDistance(false));
}
BandwidthWeight makeWeight(const KV& k, const std::string& bwKey) {
    return BandwidthWeight(k.d(bwKey, 6), k.i("adaptive", 1) != 0, (BandwidthWeight::KernelFunctionType)k.i("kernel", 0));
}
SpatialWeight makeSW(const KV& k, const std::string& bwKey) { auto d = makeDistance(k); BandwidthWeight w = makeWeight(k, bwKey); return SpatialWeight(&w, d.get()); }

static void diag(Out& o, const RegressionDiagnostic& d, bool aic = true) { o.add("RSS", d.RSS); if (aic) o.add("AIC", d.AIC); o.add("AICc", d.AICc); o.add("ENP", d.ENP); o.add("EDF", d.EDF); o.add("R2", d.RSquare); o.add("R2adj", d.RSquareAdjust); }
static ParallelType parOf(const KV& k) { std::string p = k.s("par", "serial"); if (p == "omp") return ParallelType::OpenMP; if (p == "mpi") return ParallelType::MPI_Serial; if (p == "mpimp") return ParallelType::MPI_MP; if (p == "cuda") return ParallelType::CUDA; return ParallelType::SerialOnly; }
template <class A> static void worker(A& a, const KV& k) {
    if (k.s("par").substr(0, 3) == "mpi") { a.setWorkerId(rt::mpiRank()); a.setWorkerNum(rt::mpiCfg.np); }
}
static mat bwList(const BandwidthCriterionList& l) {
    // order-insensitive: sorted by bandwidth
    std::vector<std::pair<double, double>> v(l.begin(), l.end()); std::sort(v.begin(), v.end());
    mat m(v.size(), 2); for (size_t i = 0; i < v.size(); i++) { m(i, 0) = v[i].first; m(i, 1) = v[i].second; } return m;
}
static double bwOf(const SpatialWeight& sw) { return sw.weight<BandwidthWeight>()->bandwidth(); }

template <class F> static void guarded(Out& o, F f) {
    try { f(); } catch (const std::exception& e) { o.threw = true; o.exc = e.what(); if (o.exc.empty()) o.exc = "exception"; } catch (...) { o.threw = true; o.exc = "unknown exception"; }
}
// ops: F fit/run, P predict at d.pred, Q predict at the data locations
template <class FitF, class PredF> static void runOps(const std::string& ops, Out& o, FitF fit, PredF pred) {
    for (size_t i = 0; i < ops.size(); i++) {
        Out cur; guarded(cur, [&]() { if (ops[i] == 'F') fit(cur); else pred(cur, ops[i]); });
        o = cur;
    }
}
// on an MPI run only the root has the data
static mat own(const KV& k, const mat& m) { if (k.s("par").substr(0, 3) == "mpi" && rt::mpiRank() != 0) return mat(); return m; }
static vec ownv(const KV& k, const vec& m) { if (k.s("par").substr(0, 3) == "mpi" && rt::mpiRank() != 0) return vec(); return m; }

// a scenario may be one phase of an object's history (see runHistory)
static const std::vector<KV>* gHistory = nullptr;
static std::vector<KV> phases(const KV& k) { return gHistory ? *gHistory : std::vector<KV>{k}; }
// configuration steps of a scenario, in canonical order; an order may be imposed, with steps of another configuration mixed in (see runOrdered)
typedef std::vector<std::pair<std::string, std::function<void()>>> Steps;
static const Order* gOrder = nullptr;
template <class C> static void configure(const KV& k, const Data& d, int phase, C conf) {
    if (!gOrder) { Steps st; conf(k, d, phase, st); for (auto& f : st) f.second(); return; }
    Steps real, wrong; conf(k, d, 1, real); Data dw; KV kw; if (gOrder->wrong) { kw = *gOrder->wrong; dw = makeData(kw.s("algo") == "gwss" || kw.s("algo") == "gwpca" || kw.s("algo") == "gwda" ? kw.with("icpt", 0) : kw); conf(kw, dw, 1, wrong); }
    gOrder->real.clear(); gOrder->other.clear(); for (auto& f : real) gOrder->real.push_back(f.first); for (auto& f : wrong) gOrder->other.push_back(f.first);
    if (gOrder->seq.empty()) { for (auto& f : real) f.second(); return; }
    for (int i : gOrder->seq) { if (i >= 0) real.at(i).second(); else wrong.at(-1 - i).second(); }
}
static std::string setterName(const char* code) { std::string c(code); size_t p = c.find("set"); if (p == std::string::npos) return "worker"; return c.substr(p, c.find('(', p) - p); }
#define STEP(...) st.push_back({setterName(#__VA_ARGS__), [=, &a]() mutable { __VA_ARGS__; }})
static TeleState gPhaseTele;
template <class A> static void tele(A& a, const KV& k, Env& env, int phase) {
    if (env.tele && phase == 0) a.setTelegram(makeTele(env.tele));
    if (gHistory && !env.tele) { gPhaseTele = TeleState(); gPhaseTele.stopAt = k.i("stop", -1); a.setTelegram(makeTele(&gPhaseTele)); }
}
static Out runGwr(const KV& k0, Env& env, bool robust) {
    Out o;
    std::unique_ptr<GWRBasic> ap(robust ? new GWRRobust() : new GWRBasic()); GWRBasic& a = *ap; int phase = -1;
    for (const KV& k : phases(k0)) { phase++;
    Data d = makeData(k);
    tele(a, k, env, phase);
    std::string sel = k.s("sel", "no"); (void)sel;
    if (!(phase && k.i("again"))) configure(k, d, phase, [&](const KV& k, const Data& d, int phase, Steps& st) {
        std::string sel = k.s("sel", "no"); (void)sel; (void)phase;
        STEP(a.setCoords(own(k, d.coords))); STEP(a.setDependentVariable(ownv(k, d.y))); STEP(a.setIndependentVariables(own(k, d.x))); STEP(a.setSpatialWeight(makeSW(k, "bw")));
        STEP(a.setHasIntercept(k.i("icpt", 1))); STEP(a.setHasHatMatrix(k.i("hat", 1))); if (k.i("storeC") || phase) STEP(a.setStoreC(k.i("storeC"))); if (k.i("storeS") || phase) STEP(a.setStoreS(k.i("storeS")));
        auto parallel = [&]() { if (k.has("par")) STEP(a.setParallelType(parOf(k))); if (k.has("thr")) STEP(a.setOmpThreadNum(k.i("thr"))); };
        if (k.s("order", "pc") == "pc") parallel();
        if (k.s("par").substr(0, 3) == "mpi") STEP(worker(a, k));
        if (sel != "no") { STEP(a.setIsAutoselectBandwidth(true)); STEP(a.setBandwidthSelectionCriterion(sel == "cv" ? GWRBasic::CV : GWRBasic::AIC)); if (k.has("lo")) STEP(a.setGoldenLowerBounds(k.d("lo"))); if (k.has("hi")) STEP(a.setGoldenUpperBounds(k.d("hi"))); } else if (phase) STEP(a.setIsAutoselectBandwidth(false));
        if (k.i("var")) { STEP(a.setIsAutoselectIndepVars(true)); STEP(a.setIndepVarSelectionThreshold(k.d("thd", 3.0))); } else if (phase) STEP(a.setIsAutoselectIndepVars(false));
        if (k.s("order", "pc") == "cp") parallel();
        if (robust) STEP(static_cast<GWRRobust&>(a).setFiltered(k.i("filt", 0)));
    });
    auto fit = [&](Out& q) {
        mat r = a.fit(); q.add("ret", r); q.add("betas", a.betas()); q.add("se", a.betasSE()); q.add("shat", a.sHat()); q.add("qdiag", a.qDiag());
        if (k.s("par").substr(0, 3) != "mpi") { if (k.i("hat", 1)) q.add("S", a.s()); if (!robust && k.i("storeC") && k.i("hat", 1)) q.add("C", a.c()); }
        diag(q, a.diagnostic()); q.add("bw", bwOf(a.spatialWeight())); q.add("status", (double)(int)a.status());
        if (sel != "no") q.add("bwlist", bwList(a.bandwidthSelectionCriterionList()));
        if (k.i("var")) { auto sv = a.selectedVariables(); mat m(sv.size(), 1); for (size_t i = 0; i < sv.size(); i++) m(i) = (double)sv[i]; q.add("vars", m);
            auto l = a.indepVarsSelectionCriterionList(); mat c(l.size(), 2); for (size_t i = 0; i < l.size(); i++) { double code = 0; for (auto z : l[i].first) code = code * 10 + z; c(i, 0) = code; c(i, 1) = l[i].second; } q.add("varlist", c); }
    };
    auto pred = [&](Out& q, char c) { mat r = a.predict(c == 'Q' ? d.coords : d.pred); q.add("pred", r); q.add("status", (double)(int)a.status()); };
    runOps(k.s("ops", "F"), o, fit, pred);
    }
    return o;
}
static Out runGtwr(const KV& k0, Env& env) {
    Out o; GTWR a; int phase = -1;
    for (const KV& k : phases(k0)) { phase++;
    Data d = makeData(k); tele(a, k, env, phase);
    std::string sel = k.s("sel", "no"); (void)sel;
    if (!(phase && k.i("again"))) configure(k, d, phase, [&](const KV& k, const Data& d, int phase, Steps& st) {
        std::string sel = k.s("sel", "no"); (void)sel; (void)phase;
        STEP(a.setCoords(d.coords, d.times)); STEP(a.setDependentVariable(d.y)); STEP(a.setIndependentVariables(d.x)); STEP(a.setSpatialWeight(makeSW(k.with("dist", "st"), "bw")));
        STEP(a.setHasIntercept(k.i("icpt", 1))); STEP(a.setHasHatMatrix(k.i("hat", 1)));
        auto parallel = [&]() { if (k.has("par")) STEP(a.setParallelType(parOf(k))); if (k.has("thr")) STEP(a.setOmpThreadNum(k.i("thr"))); };
        if (k.s("order", "pc") == "pc") parallel();
        if (sel != "no") { STEP(a.setIsAutoselectBandwidth(true)); STEP(a.setBandwidthSelectionCriterion(sel == "cv" ? GTWR::CV : GTWR::AIC)); } else if (phase) STEP(a.setIsAutoselectBandwidth(false));
        if (k.s("order", "pc") == "cp") parallel();
        if (k.i("autolam") || phase) STEP(a.setIsAutoselectLambda(k.i("autolam")));
    });
    auto fit = [&](Out& q) {
        mat r = a.fit(); q.add("ret", r); q.add("betas", a.betas()); q.add("se", a.betasSE()); q.add("shat", a.sHat()); q.add("qdiag", a.qDiag()); if (k.i("hat", 1)) q.add("S", a.s()); diag(q, a.diagnostic());
        q.add("bw", bwOf(a.spatialWeight())); q.add("status", (double)(int)a.status()); if (sel != "no") q.add("bwlist", bwList(a.bandwidthSelectionCriterionList()));
        if (k.i("autolam")) {
            // the mixing found, read off the distances themselves
            long before; { rt::EnvGuard g; before = gDistCalls; } double best = 0, lam = -1; for (uword f = 0; f < d.coords.n_rows; f++) { vec dd = a.spatialWeight().distance()->distance(f);
                for (uword i = 0; i < dd.n_elem; i++) { double s = std::hypot(d.coords(i, 0) - d.coords(f, 0), d.coords(i, 1) - d.coords(f, 1)); if (d.times(i) == d.times(f) && s > best) { best = s; lam = dd(i) / s; } } }
            if (lam < 0) {                                       // no two observations of the same time: solve for the mixing, the candidate consistent with all pairs
                std::vector<double> cand; auto each = [&](auto fn) { for (uword f = 0; f < d.coords.n_rows; f++) { vec dd = a.spatialWeight().distance()->distance(f); for (uword i = 0; i < dd.n_elem; i++) { double s = std::hypot(d.coords(i, 0) - d.coords(f, 0), d.coords(i, 1) - d.coords(f, 1)), t = d.times(i) - d.times(f); if (t < 0) t = -t; if (s > 0 && t > 0 && dd(i) < 1e12) fn(s, t, dd(i)); } } };
                double far = 0; each([&](double s, double t, double v) { if (s * t > far) { far = s * t; cand.clear(); double R = std::sqrt(s + t), ph = std::atan2(std::sqrt(t), std::sqrt(s)), c = std::acos(std::min(1.0, std::sqrt(v) / R)); cand = {std::pow(std::cos(ph + c), 2), std::pow(std::cos(ph - c), 2)}; } });
                double err = 1e300; for (double l : cand) { double e = 0; each([&](double s, double t, double v) { e += std::fabs(l * s + (1 - l) * t + 2 * std::sqrt(l * (1 - l) * s * t) - v); }); if (e < err) { err = e; lam = l; } }
            }
            { rt::EnvGuard g; gDistCalls = before; } q.add("lambda", lam);
        }
    };
    auto pred = [&](Out& q, char c) { q.add("pred", a.predict(c == 'Q' ? d.coords : d.pred)); q.add("status", (double)(int)a.status()); };
    runOps(k.s("ops", "F"), o, fit, pred);
    }
    return o;
}
static Out runGwdr(const KV& k0, Env& env) {
    Out o; GWDR a; int phase = -1;
    for (const KV& k : phases(k0)) { phase++;
    Data d = makeData(k); tele(a, k, env, phase);
    std::string sel = k.s("sel", "no"); (void)sel;
    if (!(phase && k.i("again"))) configure(k, d, phase, [&](const KV& k, const Data& d, int phase, Steps& st) {
        std::string sel = k.s("sel", "no"); (void)sel; (void)phase;
        int dims = k.i("dims", 2); mat cs(d.coords.n_rows, dims); for (int j = 0; j < dims; j++) cs.col(j) = j < 2 ? d.coords.col(j) : d.times;
        std::vector<SpatialWeight> sws; for (int j = 0; j < dims; j++) { OneDimDistance plain; CountedLine counted; OneDimDistance& od = k.i("count") ? counted : plain; BandwidthWeight w = makeWeight(perVar(k, j), j == 0 ? "bw" : "bw2"); sws.push_back(SpatialWeight(&w, &od)); }
        STEP(a.setCoords(cs)); STEP(a.setDependentVariable(d.y)); STEP(a.setIndependentVariables(d.x)); STEP(a.setSpatialWeights(sws)); STEP(a.setHasIntercept(k.i("icpt", 1))); STEP(a.setHasHatMatrix(k.i("hat", 1)));
        auto parallel = [&]() { if (k.has("par")) STEP(a.setParallelType(parOf(k))); if (k.has("thr")) STEP(a.setOmpThreadNum(k.i("thr"))); };
        if (k.s("order", "pc") == "pc") parallel();
        if (sel != "no") { STEP(a.setEnableBandwidthOptimize(true)); STEP(a.setBandwidthCriterionType(sel == "cv" ? GWDR::CV : GWDR::AIC)); STEP(a.setBandwidthOptimizeMaxIter(k.i("maxit", 12))); if (k.has("bweps")) STEP(a.setBandwidthOptimizeEps(k.d("bweps"))); if (k.has("bwstep")) STEP(a.setBandwidthOptimizeStep(k.d("bwstep"))); } else if (phase) STEP(a.setEnableBandwidthOptimize(false));
        if (k.i("var")) { STEP(a.setEnableIndepVarSelect(true)); STEP(a.setIndepVarSelectThreshold(k.d("thd", 3.0))); } else if (phase) STEP(a.setEnableIndepVarSelect(false));
        if (k.s("order", "pc") == "cp") parallel();
    });
    auto fit = [&](Out& q) {
        mat r = a.fit(); q.add("ret", r); q.add("betas", a.betas()); q.add("se", a.betasSE()); q.add("shat", a.sHat()); q.add("qdiag", a.qDiag()); if (k.i("hat", 1)) q.add("S", a.s()); diag(q, a.diagnostic());
        mat bw(a.spatialWeights().size(), 1); for (size_t i = 0; i < a.spatialWeights().size(); i++) bw(i) = bwOf(a.spatialWeights()[i]); q.add("bw", bw); q.add("status", (double)(int)a.status());
        if (k.i("var")) { auto sv = a.selectedIndepVars(); mat m(sv.size(), 1); for (size_t i = 0; i < sv.size(); i++) m(i) = (double)sv[i]; q.add("vars", m);
            auto l = a.indepVarCriterionList(); mat c(l.size(), 2); for (size_t i = 0; i < l.size(); i++) { double code = 0; for (auto z : l[i].first) code = code * 10 + z; c(i, 0) = code; c(i, 1) = l[i].second; } q.add("varlist", c); }
    };
    auto pred = [&](Out& q, char c) { q.add("pred", a.predict(c == 'Q' ? d.coords : d.pred)); };
    runOps(k.s("ops", "F"), o, fit, pred);
    if (k.i("probe")) {                                          // the public criterion at other bandwidths
        int dims = k.i("dims", 2); mat v(5, 2);
        for (int t = 0; t < 2; t++) { a.setBandwidthCriterionType(t ? GWDR::AIC : GWDR::CV); for (int q = 0; q < 5; q++) { std::vector<BandwidthWeight> bs; std::vector<BandwidthWeight*> bp; for (int j = 0; j < dims; j++) bs.push_back(BandwidthWeight(k.d(j == 0 ? "bw" : "bw2", 6) * probeFactor(q, j), k.i("adaptive", 1), (BandwidthWeight::KernelFunctionType)k.i("kernel", 0))); for (auto& b : bs) bp.push_back(&b); v(q, t) = a.bandwidthCriterion(bp); } }
        o.add("probe", v); o.add("status", (double)(int)a.status());
    }
    }
    return o;
}
static Out runMgwr(const KV& k0, Env& env) {
    Out o; GWRMultiscale a; int phase = -1;
    for (const KV& k : phases(k0)) { phase++;
    Data d = makeData(k); size_t p = d.x.n_cols; tele(a, k, env, phase);
    std::string sel = k.s("sel", "no"); (void)sel;
    if (!(phase && k.i("again"))) configure(k, d, phase, [&](const KV& k, const Data& d, int phase, Steps& st) {
        std::string sel = k.s("sel", "no"); (void)sel; (void)phase;
        size_t p = d.x.n_cols; std::vector<SpatialWeight> sws; for (size_t j = 0; j < p; j++) { std::string key = "bw" + std::to_string(j); sws.push_back(makeSW(perVar(k, j), k.has(key) ? key : "bw")); }
        std::string init = k.s("init", sel == "no" ? "spec" : "null");
        std::vector<GWRMultiscale::BandwidthInitilizeType> bi(p, init == "spec" ? GWRMultiscale::Specified : init == "null" ? GWRMultiscale::Null : GWRMultiscale::Initial);
        if (k.has("mix")) bi[p - 1] = k.s("mix") == "spec" ? GWRMultiscale::Specified : k.s("mix") == "null" ? GWRMultiscale::Null : GWRMultiscale::Initial;
        std::vector<GWRMultiscale::BandwidthSelectionCriterionType> ba(p, sel == "aic" ? GWRMultiscale::AIC : GWRMultiscale::CV);
        std::vector<bool> pc(p); std::vector<double> bt(p); for (size_t j = 0; j < p; j++) { KV q = perVar(k, j); pc[j] = q.i("center", 0) != 0; bt[j] = q.d("bwthr", 1e-5); ba[j] = q.s("sel") == "aic" ? GWRMultiscale::AIC : GWRMultiscale::CV; } if (k.i("icpt", 1)) pc[0] = false;
        STEP(a.setIndependentVariables(d.x)); STEP(a.setBandwidthInitilize(bi)); STEP(a.setBandwidthSelectionApproach(ba));
        STEP(a.setCoords(d.coords)); STEP(a.setDependentVariable(d.y)); STEP(a.setSpatialWeights(sws)); STEP(a.setHasHatMatrix(k.i("hat", 1))); STEP(a.setHasIntercept(k.i("icpt", 1)));
        STEP(a.setPreditorCentered(pc)); STEP(a.setBandwidthSelectThreshold(bt));
        STEP(a.setBandwidthSelectRetryTimes(k.i("retry", 2))); STEP(a.setMaxIteration(k.i("maxit", 6))); STEP(a.setCriterionType(k.s("crit", "dcvr") == "cvr" ? GWRMultiscale::CVR : GWRMultiscale::dCVR)); STEP(a.setCriterionThreshold(k.d("eps", 1e-6)));
        if (k.has("alow")) STEP(a.setAdaptiveLower(k.i("alow"))); if (k.has("lo")) STEP(a.setGoldenLowerBounds(k.d("lo"))); if (k.has("hi")) STEP(a.setGoldenUpperBounds(k.d("hi")));
        if (k.has("par")) STEP(a.setParallelType(parOf(k))); if (k.has("thr")) STEP(a.setOmpThreadNum(k.i("thr"))); if (k.s("par").substr(0, 3) == "mpi") STEP(worker(a, k));
    });
    auto fit = [&](Out& q) {
        mat r = a.fit(); q.add("ret", r); q.add("betas", a.betas()); if (!(k.s("par").substr(0, 3) == "mpi" && rt::mpiRank() != 0)) diag(q, a.diagnostic());
        mat bw(a.spatialWeights().size(), 1); for (size_t i = 0; i < a.spatialWeights().size(); i++) bw(i) = bwOf(a.spatialWeights()[i]); q.add("bw", bw); q.add("status", (double)(int)a.status());
    };
    auto pred = [&](Out& q, char c) { q.add("pred", a.predict(c == 'Q' ? d.coords : d.pred)); };
    runOps(k.s("ops", "F"), o, fit, pred);
    }
    return o;
}
// results that only derived classes see (absent if the names change)
struct Ggwr : GWRGeneralized {
    template <class D> static auto se(const D& d, int) -> decltype(mat(d.mBetasSE)) { return d.mBetasSE; }
    template <class D> static mat se(const D&, long) { return mat(); }
    template <class D> static auto shat(const D& d, int) -> decltype(mat(d.mShat)) { return d.mShat; }
    template <class D> static mat shat(const D&, long) { return mat(); }
};
static Out runGgwr(const KV& k0, Env& env) {
    Out o; Ggwr a; int phase = -1;
    for (const KV& k : phases(k0)) { phase++;
    Data d = makeData(k); tele(a, k, env, phase);
    std::string sel = k.s("sel", "no"); (void)sel;
    if (!(phase && k.i("again"))) configure(k, d, phase, [&](const KV& k, const Data& d, int phase, Steps& st) {
        std::string sel = k.s("sel", "no"); (void)sel; (void)phase;
        STEP(a.setCoords(d.coords)); STEP(a.setDependentVariable(d.y)); STEP(a.setIndependentVariables(d.x)); STEP(a.setSpatialWeight(makeSW(k, "bw"))); STEP(a.setHasHatMatrix(k.i("hat", 1))); STEP(a.setHasIntercept(k.i("icpt", 1)));
        if (k.has("tol")) STEP(a.setTol(k.d("tol"))); if (k.has("maxit")) STEP(a.setMaxiter(k.i("maxit")));
        std::string ord = k.s("order", "fpc");
        for (char c : ord) { if (c == 'f') STEP(a.setFamily(k.s("fam", "poisson") == "poisson" ? GWRGeneralized::Poisson : GWRGeneralized::Binomial)); else if (c == 'p') { if (k.has("par")) STEP(a.setParallelType(parOf(k))); if (k.has("thr")) STEP(a.setOmpThreadNum(k.i("thr"))); } else if (c == 'c' && sel != "no") { STEP(a.setIsAutoselectBandwidth(true)); STEP(a.setBandwidthSelectionCriterionType(sel == "cv" ? GWRGeneralized::CV : GWRGeneralized::AIC)); } else if (c == 'c' && phase) STEP(a.setIsAutoselectBandwidth(false)); }
    });
    auto fit = [&](Out& q) {
        mat r = a.fit(); q.add("ret", r); q.add("betas", a.betas()); GWRGeneralizedDiagnostic g = a.getDiagnostic(); GLMDiagnostic l = a.getGLMDiagnostic();
        q.add("gdev", g.RSS); q.add("gAIC", g.AIC); q.add("gAICc", g.AICc); q.add("gR2", g.RSquare); q.add("nulldev", l.NullDev); q.add("glmdev", l.Dev); q.add("glmAIC", l.AIC); q.add("glmAICc", l.AICc); q.add("glmR2", l.RSquare);
        if (k.i("hat", 1)) { mat se = Ggwr::se(a, 0), sh = Ggwr::shat(a, 0); if (se.n_elem) q.add("~se", se); if (sh.n_elem) q.add("~shat", sh); }
        q.add("wt1", a.getWtMat1()); q.add("wt2", a.getWtMat2());
        q.add("bw", bwOf(a.spatialWeight())); q.add("status", (double)(int)a.status()); if (sel != "no") q.add("bwlist", bwList(a.mBandwidthSelectionCriterionList));
    };
    auto pred = [&](Out& q, char c) { q.add("pred", a.predict(c == 'Q' ? d.coords : d.pred)); q.add("status", (double)(int)a.status()); };
    runOps(k.s("ops", "F"), o, fit, pred);
    }
    return o;
}
static Out runLcr(const KV& k0, Env& env) {
    Out o; GWRLocalCollinearity a; int phase = -1;
    for (const KV& k : phases(k0)) { phase++;
    Data d = makeData(k); tele(a, k, env, phase);
    std::string sel = k.s("sel", "no"); (void)sel;
    if (!(phase && k.i("again"))) configure(k, d, phase, [&](const KV& k, const Data& d, int phase, Steps& st) {
        std::string sel = k.s("sel", "no"); (void)sel; (void)phase;
        STEP(a.setCoords(d.coords)); STEP(a.setDependentVariable(d.y)); STEP(a.setIndependentVariables(d.x)); STEP(a.setSpatialWeight(makeSW(k, "bw"))); STEP(a.setHasHatMatrix(k.i("hat", 1))); STEP(a.setHasIntercept(k.i("icpt", 1)));
        STEP(a.setLambda(k.d("lam", 0))); STEP(a.setLambdaAdjust(k.i("ladj", 0))); STEP(a.setCnThresh(k.d("cn", 30)));
        auto parallel = [&]() { if (k.has("par")) STEP(a.setParallelType(parOf(k))); if (k.has("thr")) STEP(a.setOmpThreadNum(k.i("thr"))); };
        if (k.s("order", "pc") == "pc") parallel();
        if (sel != "no") { STEP(a.setIsAutoselectBandwidth(true)); STEP(a.setBandwidthSelectionCriterion(GWRLocalCollinearity::CV)); } else if (phase) STEP(a.setIsAutoselectBandwidth(false));
        if (k.s("order", "pc") == "cp") parallel();
    });
    auto fit = [&](Out& q) { mat r = a.fit(); q.add("ret", r); q.add("betas", a.betas()); if (k.i("hat", 1)) diag(q, a.diagnostic()); q.add("bw", bwOf(a.spatialWeight())); q.add("status", (double)(int)a.status()); if (k.s("sel", "no") != "no") q.add("bwlist", bwList(a.bandwidthSelectionCriterionList())); };
    auto pred = [&](Out& q, char c) { q.add("pred", a.predict(c == 'Q' ? d.coords : d.pred)); q.add("status", (double)(int)a.status()); };
    runOps(k.s("ops", "F"), o, fit, pred);
    }
    return o;
}
static Out runScal(const KV& k0, Env& env) {
    Out o; GWRScalable a; int phase = -1;
    for (const KV& k : phases(k0)) { phase++;
    Data d = makeData(k); tele(a, k, env, phase);
    std::string sel = k.s("sel", "no"); (void)sel;
    if (!(phase && k.i("again"))) configure(k, d, phase, [&](const KV& k, const Data& d, int phase, Steps& st) {
        std::string sel = k.s("sel", "no"); (void)sel; (void)phase;
        STEP(a.setCoords(d.coords)); STEP(a.setDependentVariable(d.y)); STEP(a.setIndependentVariables(d.x)); STEP(a.setSpatialWeight(makeSW(k, "bw"))); STEP(a.setHasHatMatrix(k.i("hat", 1))); STEP(a.setHasIntercept(k.i("icpt", 1)));
        STEP(a.setPolynomial(k.i("poly", 4))); STEP(a.setParameterOptimizeCriterion(k.s("sel", "cv") == "cv" ? GWRScalable::CV : GWRScalable::AIC));
    });
    auto fit = [&](Out& q) { mat r = a.fit(); q.add("ret", r); q.add("betas", a.betas()); q.add("cv", a.cv()); q.add("scale", a.scale()); q.add("penalty", a.penalty()); if (k.i("hat", 1)) diag(q, a.diagnostic()); q.add("bw", bwOf(a.spatialWeight())); q.add("status", (double)(int)a.status()); };
    auto pred = [&](Out& q, char c) { q.add("pred", a.predict(c == 'Q' ? d.coords : d.pred)); q.add("scale", a.scale()); q.add("penalty", a.penalty()); q.add("status", (double)(int)a.status()); };
    runOps(k.s("ops", "F"), o, fit, pred);
    }
    return o;
}
static Out runGwss(const KV& k0, Env& env) {
    Out o; GWSS a; int phase = -1;
    for (const KV& k : phases(k0)) { phase++;
    Data d = makeData(k.with("icpt", 0)); tele(a, k, env, phase);
    std::string sel = k.s("sel", "no"); (void)sel;
    if (!(phase && k.i("again"))) configure(k, d, phase, [&](const KV& k, const Data& d, int phase, Steps& st) {
        std::string sel = k.s("sel", "no"); (void)sel; (void)phase;
        STEP(a.setCoords(d.coords)); STEP(a.setVariables(d.x)); STEP(a.setSpatialWeight(makeSW(k, "bw"))); STEP(a.setQuantile(k.i("quant", 0))); STEP(a.setIsCorrWithFirstOnly(k.i("first", 0)));
        auto parallel = [&]() { if (k.has("par")) STEP(a.setParallelType(parOf(k))); if (k.has("thr")) STEP(a.setOmpThreadNum(k.i("thr"))); };
        if (k.s("order", "mp") != "mp") parallel();
        STEP(a.setGWSSMode(k.s("mode", "avg") == "avg" ? GWSS::GWSSMode::Average : GWSS::GWSSMode::Correlation));
        if (k.s("order", "mp") == "mp") parallel();
    });
    auto fit = [&](Out& q) { a.run(); q.add("mean", a.localMean()); q.add("sdev", a.localSDev()); q.add("var", a.localVar()); q.add("skew", a.localSkewness()); q.add("cv", a.localCV()); if (k.i("quant")) { q.add("median", a.localMedian()); q.add("iqr", a.iqr()); q.add("qi", a.qi()); }
        q.add("cov", a.localCov()); q.add("cor", a.localCorr()); q.add("scor", a.localSCorr()); q.add("status", (double)(int)a.status()); };
    runOps(k.s("ops", "F"), o, fit, [](Out&, char) {});
    }
    return o;
}
static Out runGwpca(const KV& k0, Env& env) {
    Out o; GWPCA a; int phase = -1;
    for (const KV& k : phases(k0)) { phase++;
    Data d = makeData(k.with("icpt", 0)); tele(a, k, env, phase);
    std::string sel = k.s("sel", "no"); (void)sel;
    if (!(phase && k.i("again"))) configure(k, d, phase, [&](const KV& k, const Data& d, int phase, Steps& st) {
        std::string sel = k.s("sel", "no"); (void)sel; (void)phase;
        STEP(a.setCoords(d.coords)); STEP(a.setVariables(d.x)); STEP(a.setSpatialWeight(makeSW(k, "bw"))); STEP(a.setKeepComponents(k.i("k", 2)));
    });
    auto fit = [&](Out& q) { a.run(); q.add("pv", a.localPV()); q.add("sdev", a.sdev()); q.add("loadings", a.loadings()); q.add("scores", a.scores()); q.add("status", (double)(int)a.status()); };
    runOps(k.s("ops", "F"), o, fit, [](Out&, char) {});
    }
    return o;
}
static Out runGwda(const KV& k0, Env& env) {
    Out o; GWDA a; int phase = -1;
    for (const KV& k : phases(k0)) { phase++;
    Data d = makeData(k.with("icpt", 0)); tele(a, k, env, phase);
    std::string sel = k.s("sel", "no"); (void)sel;
    if (!(phase && k.i("again"))) configure(k, d, phase, [&](const KV& k, const Data& d, int phase, Steps& st) {
        std::string sel = k.s("sel", "no"); (void)sel; (void)phase;
        STEP(a.setCoords(d.coords)); STEP(a.setVariables(d.x)); STEP(auto g = d.groups; a.setGroup(g)); STEP(a.setSpatialWeight(makeSW(k, "bw"))); STEP(a.setIsWqda(k.i("wqda", 0))); STEP(a.setHascov(k.i("hcov", 1))); STEP(a.setHasmean(k.i("hmean", 1))); STEP(a.setHasprior(k.i("hprior", 1)));
        if (k.has("par")) STEP(a.setParallelType(parOf(k))); if (k.has("thr")) STEP(a.setOmpThreadNum(k.i("thr")));
    });
    auto fit = [&](Out& q) { a.run(); q.add("rate", a.correctRate()); q.add("res", a.res()); q.add("probs", a.probs()); q.add("pmax", a.pmax()); q.add("entropy", a.entropy()); mat g(a.group().size(), 1); for (size_t i = 0; i < a.group().size(); i++) g(i) = labelCode(a.group()[i]); q.add("group", g); q.add("status", (double)(int)a.status()); };
    runOps(k.s("ops", "F"), o, fit, [](Out&, char) {});
    }
    return o;
}
Out runScenario(const KV& k, Env& env) {
    std::string a = k.s("algo");
    if (a == "gwr") return runGwr(k, env, false);
    if (a == "robust") return runGwr(k, env, true);
    if (a == "gtwr") return runGtwr(k, env);
    if (a == "gwdr") return runGwdr(k, env);
    if (a == "mgwr") return runMgwr(k, env);
    if (a == "ggwr") return runGgwr(k, env);
    if (a == "lcr") return runLcr(k, env);
    if (a == "scal") return runScal(k, env);
    if (a == "gwss") return runGwss(k, env);
    if (a == "gwpca") return runGwpca(k, env);
    if (a == "gwda") return runGwda(k, env);
    fprintf(stderr, "unknown algo %s\n", a.c_str()); abort();
}
Out runHistory(const std::vector<KV>& h, Env& env, bool controlled) { gHistory = &h; Out o = controlled ? runControlled(h[0], env) : runScenario(h[0], env); gHistory = nullptr; return o; }
Out runOrdered(const KV& k, Env& env, const Order& o, bool controlled) { gOrder = &o; Out r = controlled ? runControlled(k, env) : runScenario(k, env); gOrder = nullptr; return r; }
Out runControlled(const KV& k, Env& env) { rt::ompBegin(); Out o = runScenario(k, env); rt::ompEnd(); return o; }
