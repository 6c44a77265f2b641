// C22: a local problem that cannot be solved is never passed off as a result.
#include "common.h"
#include "scen.h"
#include <algorithm>
using std::string; using std::vector; using namespace arma;
namespace {
Out go(const KV& k, int perm) {
    Env e; rt::ompCfg = rt::OmpConfig(); rt::ompCfg.maxThreads = std::max(1, k.i("thr", 1)); if (perm) { rt::ompCfg.orderRegion = -2; rt::ompCfg.orderPerm = perm; }
    if (k.s("par") == "omp") return runControlled(k, e); return runScenario(k, e);
}
string finite(const Out& o) { for (const char* q : {"ret", "betas", "pred", "mean", "pv"}) if (o.v.count(q)) for (double v : o.v.at(q)) if (!std::isfinite(v)) return q; return ""; }
// every single failing factorisation, and every point from which all fail
void caseFault(const KV& k, Res& r) {
    rt::lapack = rt::LapackCfg(); Out full = go(k, 0); long N = rt::lapack.count; r.execs++; r.validated++;
    if (full.threw) { r.bad("fault-free", full.exc); return; } if (N == 0) { r.bad("harness", "no factorisation was made"); return; }
    bool search = k.s("sel", "no") != "no" || k.i("var") || (k.s("algo") == "mgwr" && !k.i("adaptive", 1));   /* multiscale always searches its initial bandwidth */ long threw = 0, same = 0, other = 0; std::set<uint64_t> fp; int perms = k.i("thr", 1) > 1 ? 2 : 1; long stride = k.i("stride", 1) == 1 ? 1 : std::max<long>(k.i("stride", 1), N / 400);
    for (int sticky = 0; sticky < 2; sticky++) for (long j = 0; j < N; j++) for (int perm = 0; perm < perms; perm++) {
        if (stride > 1 && j > 60 && j + 60 < N && j % stride) continue;
        if (sticky && j > 40 && j + 40 < N) continue;
        rt::lapack = rt::LapackCfg(); rt::lapack.failAt = j; rt::lapack.sticky = sticky; Out o = go(k, perm); bool inj = rt::lapack.injected > 0; rt::lapack = rt::LapackCfg();
        r.execs++; r.states++; r.transitions += N; r.validated++; fp.insert(fingerprint(o)); string at = fmt("factorisation %ld of %ld%s fails: ", j, N, sticky ? " and all later ones" : "");
        if (o.threw) { threw++; if (o.exc[0] == '@') { r.bad("ends", at + o.exc.substr(1)); return; } continue; }
        if (!inj) continue;
        string df = diff(full, o, 1e-7); if (df.empty()) { same++; continue; }
        // a search may go on without the candidate that failed; whatever it reports must be a value of the fault-free problem
        bool okay = search; string why;
        bool sameVars = !k.i("var") || (o.v.count("vars") && full.v.count("vars") && diffMat(full.v.at("vars"), o.v.at("vars")).empty());   // another model has other bandwidth criteria
        if (okay && sameVars && o.v.count("bwlist") && full.v.count("bwlist")) { const mat &a = full.v.at("bwlist"), &b = o.v.at("bwlist"); double bw = o.v.at("bw")(0), best = 1e300, mine = 1e301; for (uword i = 0; i < b.n_rows; i++) { if (!std::isfinite(b(i, 1)) || b(i, 1) > 1e300) { okay = false; why = "an infinite criterion is reported"; } best = std::min(best, b(i, 1)); if (b(i, 0) == bw) mine = b(i, 1); for (uword q = 0; q < a.n_rows; q++) if (a(q, 0) == b(i, 0) && std::fabs(a(q, 1) - b(i, 1)) > 1e-6 * (1 + std::fabs(a(q, 1)))) { okay = false; why = fmt("the criterion at bandwidth %.6g is %.10g instead of %.10g", b(i, 0), b(i, 1), a(q, 1)); } } if (okay && mine > best) { okay = false; why = "the chosen bandwidth is not the best one reported"; } }
        if (okay && o.v.count("varlist") && full.v.count("varlist")) { const mat &a = full.v.at("varlist"), &b = o.v.at("varlist"); for (uword i = 0; i < b.n_rows; i++) for (uword q = 0; q < a.n_rows; q++) if (a(q, 0) == b(i, 0) && std::fabs(a(q, 1) - b(i, 1)) > 1e-6 * (1 + std::fabs(a(q, 1))) && b(i, 1) < 1e300) { okay = false; why = fmt("the criterion of model %g is %.10g instead of %.10g", b(i, 0), b(i, 1), a(q, 1)); } }
        if (okay && !finite(o).empty()) { okay = false; why = finite(o) + " holds non-finite numbers"; }
        if (okay && k.s("algo") == "gwr" && !k.i("var")) { Out f = go(k.without("sel").with("bw", fmt("%.17g", o.v.at("bw")(0))), 0); string d2 = f.threw ? "" : diff(f, o, 1e-7, {"ret", "betas", "se", "RSS", "AICc"}); if (!d2.empty()) { okay = false; why = "the model is not the one at the chosen bandwidth: " + d2; } }
        if (okay) { other++; continue; }
        r.bad("silent", at + "the calculation succeeds with another result (" + (why.empty() ? df : why) + ")"); return;
    }
    r.distinct += fp.size(); r.samples.push_back(k.str() + fmt(" -> %ld factorisations; exception %ld times, same result %ld times, search continued %ld times", N, threw, same, other));
    if (getenv("MC_VERBOSE")) fprintf(stderr, "%s\n", r.samples.back().c_str());
}
// no unique local solution anywhere: a covariate that is zero everywhere
void caseSing(const KV& k, Res& r) {
    for (int perm = 0; perm < (k.i("thr", 1) > 1 ? 2 : 1); perm++) {
        rt::lapack = rt::LapackCfg(); Out o = go(k, perm); r.execs++; r.states++; r.transitions++; r.validated++; r.distinct++;
        if (o.threw) { if (o.exc[0] == '@') r.bad("ends", o.exc.substr(1)); r.ctr["exceptions"]++; continue; }
        r.bad("silent", "no exception although no local regression has a solution: " + brief(o)); return;
    }
    r.samples.push_back(k.str());
}
}
static Reg c22("C22", [](vector<Case>& cs, bool th) {
    vector<string> f = {"algo=gwr;n=12;p=5;bw=12;hat=0|1", "algo=gwr;n=12;p=5;bw=12;nrp=3;ops=P", "algo=gwr;n=12;p=5;sel=cv|aic;lo=10;hi=12", "algo=gwr;n=12;p=6;var=1;thd=1;bw=12", "algo=robust;n=12;p=5;bw=12;filt=0|1;layout=outlier", "algo=gtwr;n=14;p=5;bw=14;lambda=0.4;hat=0|1;kernel=0", "algo=gtwr;n=14;p=5;adaptive=0;sel=cv|aic;lambda=0.4", "algo=gtwr;n=14;p=5;bw=14;lambda=0.4;autolam=1;stride=3",
        "algo=gwdr;n=12;p=5;bw=12;bw2=12;hat=0|1", "algo=gwdr;n=12;p=6;bw=12;bw2=12;var=1;thd=1", "algo=ggwr;fam=poisson|binomial;n=14;p=5;bw=14;hat=0|1;maxit=2", "algo=ggwr;fam=poisson;n=14;p=5;bw=14;nrp=3;ops=P;maxit=2", "algo=lcr;n=12;p=5;bw=12;hat=0|1;ladj=0|1;cn=3", "algo=scal;n=14;p=5;bw=12;sel=cv|aic;stride=7", "algo=mgwr;n=12;p=5;bw=12;lo=11;hi=12;maxit=1;hat=1", "algo=gwda;n=14;p=5;ng=2;bw=14;wqda=0|1",
        "algo=gwr;n=13;p=5;bw=90;adaptive=0;hat=0|1;storeC=1;storeS=1;kernel=0|1", "algo=gwr;n=12;p=5;layout=neg|dup|cross;bw=12;hat=0|1;icpt=0|1", "algo=gwr;n=12;p=5;bw=12;nrp=1|14;ops=P|FP|PF|Q", "algo=gwr;n=12;p=5;sel=cv|aic;adaptive=0;kernel=0;stride=3", "algo=gwr;n=12;p=6;var=1;thd=1;sel=cv|aic;lo=11;hi=12;bw=12;stride=3", "algo=robust;n=13;p=5;bw=13;nrp=1|14;ops=P|FP", "algo=robust;n=13;p=5;sel=cv|aic;lo=12;hi=13;filt=0|1;layout=outlier;stride=3",
        "algo=gtwr;n=14;p=5;tm=same;adaptive=0;bw=300;lambda=0.4;hat=0|1", "algo=gwdr;n=12;p=5;dims=1|3;bw=12;bw2=12;hat=0|1", "algo=gwdr;n=13;p=5;adaptive=0;bw=90;bw2=90;hat=0|1;kernel=0", "algo=ggwr;fam=poisson|binomial;n=14;p=5;adaptive=0;bw=90;hat=0|1;maxit=2", "algo=ggwr;fam=poisson|binomial;n=14;p=5;adaptive=0;sel=cv|aic;maxit=2;stride=5;kernel=0", "algo=ggwr;fam=poisson|binomial;n=14;p=5;bw=14;nrp=1|15;ops=FP;maxit=2",
        "algo=lcr;n=13;p=5;adaptive=0;bw=90;lam=0.2;hat=0|1", "algo=lcr;n=13;p=5;adaptive=0;sel=cv;ladj=0|1;cn=4;kernel=0;stride=5", "algo=lcr;n=12;p=5;bw=12;nrp=1|13;ops=P|FP", "algo=scal;n=14;p=5;bw=12;nrp=1|15;ops=P|FP;stride=5", "algo=mgwr;n=12;p=5;adaptive=0;bw=90;bw1=80;maxit=1|2;hat=0|1;stride=3", "algo=mgwr;n=12;p=3;sel=cv|aic;lo=10;hi=12;alow=10;retry=1;maxit=1;stride=5", "algo=gwda;n=18;p=5;ng=3;adaptive=0;bw=300;wqda=0|1;hcov=0|1"};
    for (auto& s : f) for (auto& k : expand(s)) { cs.push_back({k.str(), [=](Res& r) { caseFault(k.with("par", "serial"), r); }, 300}); string a = k.s("algo"); if (a != "scal" && a != "gwpca") for (int t : (th ? vector<int>{2, 3, 14} : vector<int>{2})) cs.push_back({k.str() + fmt(";T=%d", t), [=](Res& r) { caseFault(k.with("par", "omp").with("thr", t), r); }, 300}); }
    vector<string> z = {"algo=gwr;n=9;p=2|3|4|5;bw=8|9;hat=0|1;kernel=0|2", "algo=gwr;n=9;p=2|3;bw=8;nrp=3;ops=P", "algo=gwr;n=10;p=3;sel=cv|aic;lo=6;hi=10", "algo=robust;n=12;p=3;bw=10;filt=0|1", "algo=gtwr;n=12;p=2|3;bw=10;lambda=0.4;hat=0|1", "algo=gwdr;n=12;p=2|3;bw=11;bw2=11;hat=0|1", "algo=ggwr;fam=poisson|binomial;n=12;p=2|3;bw=11;hat=0|1", "algo=scal;n=14;p=3;bw=11;sel=cv|aic", "algo=mgwr;n=10;p=2|3;bw=8;lo=7;hi=10;hat=0|1"};
    for (auto& s : z) for (auto& k0 : expand(s)) { KV k = k0.with("layout", "zero"); cs.push_back({k.str(), [=](Res& r) { caseSing(k.with("par", "serial"), r); }, 60}); if (k.s("algo") != "scal") cs.push_back({k.str() + ";T=3", [=](Res& r) { caseSing(k.with("par", "omp").with("thr", 3), r); }, 60}); }
});
