// C28: what memory held before makes no difference.
#include "common.h"
#include "scen.h"
#include <algorithm>
#include <cstring>
using std::string; using std::vector; using namespace arma;
#ifndef MC_ASAN
namespace {
__attribute__((noinline)) void paint(int b) { volatile char q[700000]; memset((void*)q, b, sizeof q); asm volatile("" :: "r"(q) : "memory"); }
struct Plan { long stop = -1, fail = -1; int perm = 0; };
Out go(const KV& k, const Plan& p, int fill, TeleState& t) {
    Env e; t = TeleState(); t.stopAt = p.stop; e.tele = &t; rt::ompCfg = rt::OmpConfig(); rt::ompCfg.maxThreads = std::max(1, k.i("thr", 1)); if (p.perm) { rt::ompCfg.orderRegion = -2; rt::ompCfg.orderPerm = p.perm; }
    rt::lapack = rt::LapackCfg(); rt::lapack.failAt = p.fail; rt::memFill = fill; paint(fill < 0 ? 0 : fill);
    Out o = k.s("par") == "omp" ? runControlled(k, e) : runScenario(k, e);
    rt::memFill = -1; long c = rt::lapack.count; rt::lapack = rt::LapackCfg(); rt::lapack.count = c; return o;
}
string same(const Out& a, const Out& b) {
    if (a.threw != b.threw || (a.threw && a.exc != b.exc)) return "one run ends with " + (a.threw ? "\"" + a.exc + "\"" : "a result") + ", the other with " + (b.threw ? "\"" + b.exc + "\"" : "a result");
    for (auto& p : a.v) { auto i = b.v.find(p.first); if (i == b.v.end()) return p.first + " missing"; const mat &x = p.second, &y = i->second; if (x.n_rows != y.n_rows || x.n_cols != y.n_cols) return p.first + " has another size";
        for (uword j = 0; j < x.n_elem; j++) { bool nx = std::isnan(x(j)), ny = std::isnan(y(j)); if (nx && ny) continue; if (nx != ny || !(x(j) == y(j) || std::fabs(x(j) - y(j)) <= 1e-7 * std::max({1.0, std::fabs(x(j)), std::fabs(y(j))}))) return fmt("%s[%d] is %.10g or %.10g", p.first.c_str(), (int)j, x(j), y(j)); } }
    return "";
}
const int FILL[] = {0x00, 0xFF, 0x7F, 0x3F};
void caseMem(const KV& k, int deep, Res& r) {
    TeleState t; bool rep = false; std::set<uint64_t> fp;
    auto plan = [&](const Plan& p, const string& what) {
        if (rep) return; Out a;
        for (int f = 0; f < 4; f++) { Out o = go(k, p, FILL[f], t); r.execs++; r.states++; r.transitions += t.polls + 1; r.validated++; fp.insert(fingerprint(o)); if (f == 0) { a = o; continue; } string d = same(a, o); if (!d.empty()) { rep = true; r.bad("depends", what + fmt("memory that held 0x%02X or 0x%02X before: ", FILL[0], FILL[f]) + d); return; } }
    };
    Out o = go(k, Plan(), 0, t); long polls = t.polls, solves = rt::lapack.count;
    plan(Plan(), "");
    if (k.i("thr", 1) > 1) { Plan p; p.perm = 1; plan(p, "other thread order, "); }
    auto pos = [&](long n) { vector<long> q; long full = deep ? 200 : 24; for (long i = 0; i < n; i++) if (n <= full || i < full / 2 || i >= n - full / 3 || i % std::max(1L, n / 12) == 0) q.push_back(i); return q; };
    for (long s : pos(polls)) { Plan p; p.stop = s; plan(p, fmt("stop requested at poll %ld of %ld, ", s, polls)); }
    for (long s : pos(solves)) { Plan p; p.fail = s; plan(p, fmt("factorisation %ld of %ld fails, ", s, solves)); }
    r.distinct += fp.size(); r.samples.push_back(k.str() + fmt(" -> 4 memory contents x (complete run, %ld cancellations, %ld failures)", polls, solves));
    if (getenv("MC_VERBOSE")) fprintf(stderr, "%s\n", r.samples.back().c_str());
}
}
#else
namespace {
void caseMem(const KV& k, int, Res& r) {   // every access is checked by the sanitizer, which ends the process at the first bad one
    Env e; TeleState t; e.tele = &t; rt::ompCfg = rt::OmpConfig(); rt::ompCfg.maxThreads = std::max(1, k.i("thr", 1)); Out o = k.s("par") == "omp" ? runControlled(k, e) : runScenario(k, e); r.execs++; r.states++; r.validated++; r.distinct++;
    long n = t.polls; for (long s = 0; s < n; s++) { if (n > 30 && s > 10 && s + 10 < n && s % (n / 10)) continue; t = TeleState(); t.stopAt = s; o = k.s("par") == "omp" ? runControlled(k, e) : runScenario(k, e); r.execs++; r.states++; r.transitions++; r.validated++; }
    r.samples.push_back(k.str());
}
}
#endif
static Reg reg("C28", [](vector<Case>& cs, bool th) {
    vector<string> sp = {
        "algo=gwr;n=9;p=2|5;bw=8;hat=0|1;kernel=0|2", "algo=gwr;n=8;p=2;bw=6;hat=1;storeC=1;storeS=1", "algo=gwr;n=8;p=2;bw=6;nrp=1|3|11;ops=P|FP|FQ|PF|FF", "algo=gwr;n=8;p=3;bw=7;var=1;thd=1|3;sel=no|cv|aic;lo=5;hi=8", "algo=gwr;n=8;p=2;sel=cv|aic;adaptive=0", "algo=gwr;n=9;p=3;layout=sing|zero|dup|collin;bw=6;hat=0|1",
        "algo=robust;n=9;p=2;layout=outlier|rand;bw=8;hat=1;filt=0|1", "algo=robust;n=9;p=2;bw=8;nrp=3;ops=P|FP",
        "algo=gtwr;n=8;p=2;bw=7;lambda=0.4;hat=0|1", "algo=gtwr;n=8;p=2;adaptive=0;sel=cv|aic;lambda=0.4", "algo=gtwr;n=8;p=2;bw=7;lambda=0.4;autolam=1", "algo=gtwr;n=8;p=2;bw=7;lambda=0.4;nrp=3;ops=Q", "algo=gtwr;n=9;p=3;layout=zero;bw=8;lambda=0.4;hat=0|1",
        "algo=gwdr;n=8;p=2;bw=8;bw2=8;hat=0|1", "algo=gwdr;n=9;p=2;dims=1|3;bw=8;bw2=9;hat=1", "algo=gwdr;n=12;p=2;bw=10;bw2=10;sel=cv|aic;maxit=40;bweps=0.1", "algo=gwdr;n=9;p=3;bw=9;bw2=9;var=1;thd=1", "algo=gwdr;n=9;p=3;layout=zero;bw=8;bw2=8;hat=0|1",
        "algo=mgwr;n=8;p=2;lo=5;hi=8;bw=7;hat=0|1;maxit=1|2", "algo=mgwr;n=8;p=2;sel=cv|aic;lo=6;hi=8;alow=6;retry=1;maxit=2", "algo=mgwr;n=9;p=2;sel=cv;lo=5;hi=9;alow=5;retry=2|3;maxit=6", "algo=mgwr;n=9;p=2;sel=cv;init=init;lo=6;hi=9;alow=6;bw=7;retry=1;maxit=2;hat=1", "algo=mgwr;n=8;p=3;layout=zero;lo=5;hi=8;bw=7;hat=0|1;maxit=2",
        "algo=ggwr;fam=poisson|binomial;n=10;p=2;bw=9;hat=0|1;maxit=1|3", "algo=ggwr;fam=poisson|binomial;n=10;p=2;adaptive=0;sel=cv|aic;maxit=2", "algo=ggwr;fam=poisson|binomial;n=10;p=2;bw=9;nrp=3;ops=P|FP;maxit=3", "algo=ggwr;n=10;p=3;fam=poisson|binomial;bw=9;layout=zero;hat=0|1;maxit=3",
        "algo=lcr;n=8;p=2|3;bw=7;hat=0|1;ladj=0|1;cn=3;lam=0|0.1", "algo=lcr;n=8;p=2;adaptive=0;sel=cv", "algo=lcr;n=8;p=2;bw=7;nrp=3;ops=P|FP|FF", "algo=lcr;n=9;p=3;layout=collin|zero;bw=7;ladj=1;cn=3",
        "algo=scal;n=12;p=2;bw=8;hat=0|1;poly=1|4", "algo=scal;n=12;p=2;bw=8;sel=cv|aic", "algo=scal;n=12;p=2;bw=8;nrp=3;ops=P|FP",
        "algo=gwss;n=8;p=1|2|3;bw=6;mode=avg;quant=0|1", "algo=gwss;n=8;p=2|3;bw=6;mode=cor;first=0|1", "algo=gwpca;n=8;p=3;bw=7;k=1|2|3", "algo=gwda;n=12;p=2;ng=2|3;bw=10;wqda=0|1;hcov=0|1;hmean=0|1;hprior=0|1" };
    for (auto& s : sp) for (auto& k : expand(s)) {
        cs.push_back({k.str(), [=](Res& r) { caseMem(k.with("par", "serial"), th, r); }, th ? 600 : 120});
        if (k.s("algo") != "scal" && k.s("algo") != "gwpca") for (int t : (th ? vector<int>{2, 3, 13} : vector<int>{3})) cs.push_back({k.str() + fmt(";T=%d", t), [=](Res& r) { caseMem(k.with("par", "omp").with("thr", t), th, r); }, th ? 600 : 120});
    }
});
