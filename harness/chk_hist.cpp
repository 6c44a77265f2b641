// C21: what an object computes does not depend on what it computed before.
#include "common.h"
#include "scen.h"
using std::string; using std::vector; using namespace arma;
namespace {
Out go(const vector<KV>& h) {
    int thr = 1; for (auto& k : h) thr = std::max(thr, k.i("thr", 1));
    rt::ompCfg = rt::OmpConfig(); rt::ompCfg.maxThreads = thr; Env e; return runHistory(h, e, thr > 1);
}
// all sequences of symbols up to `depth`, the last one compared with a fresh object doing only that
void caseHist(const vector<KV>& sym, int last, int depth, Res& r) {
    const KV& end = sym[last]; Out ref = go({end}); r.execs++; r.validated++; std::set<string> seen;
    auto judge = [&](const vector<KV>& h, const char* how) {
        Out o = go(h); r.execs++; r.states++; r.transitions += h.size(); r.validated++;
        Out want = ref; auto drop = [](Out& q, std::function<bool(const string&)> f) { for (auto it = q.v.begin(); it != q.v.end();) if (f(it->first)) it = q.v.erase(it); else ++it; };
        if (end.has("stop")) { auto f = [](const string& s) { return s != "status" && s != "ret" && s != "pred" && s != "bw"; }; drop(want, f); drop(o, f); }   // a cancelled calculation promises nothing else
        if (end.s("algo") == "gwss") { auto f = [&](const string& s) { return ref.v.count(s) && ref.v.at(s).is_empty(); }; drop(want, f); drop(o, f); }               // figures of the other mode stay readable
        string d = diff(want, o, 1e-9); if (d.empty()) return true;
        string tr; for (auto& k : h) tr += "[" + k.str() + "] "; r.bad(how, d + " after " + tr); return false;
    };
    std::function<bool(vector<KV>&)> rec = [&](vector<KV>& pre) -> bool {
        vector<KV> h = pre; h.push_back(end); if (!pre.empty() && !judge(h, "reconfigured")) return false;
        if ((int)pre.size() + 1 < depth) for (auto& s : sym) { pre.push_back(s); bool c = rec(pre); pre.pop_back(); if (!c) return false; }
        return true;
    };
    vector<KV> pre; if (!rec(pre)) return;
    // the same request repeated without touching the configuration
    { vector<KV> h{end}; for (int i = 0; i < 2; i++) { h.push_back(end.with("again", 1)); if (!judge(h, "repeated")) return; } }
    r.distinct++; r.samples.push_back(end.str() + fmt(" after %llu histories", (unsigned long long)r.execs));
}
}
static Reg c21("C21", [](vector<Case>& cs, bool th) {
    // each entry: common configuration, then the alternatives a phase may choose
    struct S { string base; vector<string> alts; };
    vector<S> specs = {
        {"algo=gwr;bw=8;kernel=0", {"n=9;p=3;hat=1;seed=6", "n=10;p=2;sel=cv;lo=6;hi=10;seed=6", "n=10;p=2;sel=cv;adaptive=0;lo=40;hi=110", "n=10;p=2;sel=cv;adaptive=0;lo=40;hi=110;seed=6", "n=9;p=2;ops=P;nrp=4;seed=6", "n=9;p=3;hat=1", "n=12;p=2;hat=0;seed=4", "n=9;p=2;hat=1;kernel=2;storeC=1;storeS=1", "n=10;p=2;sel=cv;lo=6;hi=10", "n=10;p=2;sel=aic;lo=6;hi=10;par=omp;thr=2", "n=9;p=3;par=omp;thr=3;hat=1", "n=10;p=4;var=1;thd=1", "n=9;p=3;layout=zero", "n=10;p=3;stop=4", "n=10;p=2;sel=cv;lo=6;hi=10;stop=25", "n=9;p=2;ops=P;nrp=4", "n=9;p=2;ops=P;nrp=12;par=omp;thr=2", "n=9;p=2;adaptive=0;bw=60;icpt=0"}},
        {"algo=robust;bw=9;layout=outlier", {"n=12;p=2;filt=1;seed=6", "n=12;p=2;ops=P;nrp=4;seed=6", "n=12;p=2;filt=0;sel=cv;lo=8;hi=12", "n=12;p=2;filt=0;sel=cv;lo=8;hi=12;seed=6", "n=12;p=2;filt=0", "n=12;p=2;filt=1", "n=14;p=3;filt=1;par=omp;thr=2", "n=12;p=2;filt=0;stop=30", "n=10;p=3;layout=zero", "n=12;p=2;ops=P;nrp=4", "n=12;p=2;hat=0;filt=0;seed=3", "n=12;p=2;filt=1;stop=14"}},
        {"algo=gtwr;bw=8;lambda=0.4", {"n=9;p=2;hat=1;seed=6", "n=10;p=2;adaptive=0;bw=60;sel=cv;seed=6", "n=10;p=2;autolam=1;seed=6", "n=9;p=2;hat=1", "n=12;p=3;hat=0;seed=4", "n=9;p=2;par=omp;thr=2;hat=1", "n=10;p=2;adaptive=0;bw=60;sel=cv", "n=10;p=2;adaptive=0;bw=60;sel=aic;par=omp;thr=2", "n=10;p=3;layout=zero", "n=9;p=2;stop=4", "n=10;p=2;autolam=1", "n=9;p=2;lambda=0.8;kernel=2"}},
        {"algo=gwdr;bw=8;bw2=9;bweps=0.05;maxit=100", {"n=10;p=2;hat=1;seed=6", "n=10;p=2;sel=cv;seed=6", "n=10;p=2;dims=1", "n=10;p=2;adaptive=0;bw=60;bw2=60;seed=6", "n=10;p=2;hat=1", "n=12;p=3;hat=0;seed=4", "n=10;p=2;dims=3;par=omp;thr=2", "n=10;p=2;sel=cv", "n=12;p=2;sel=aic;par=omp;thr=2", "n=10;p=3;layout=zero", "n=10;p=2;stop=5", "n=10;p=4;var=1;thd=1", "n=10;p=2;adaptive=0;bw=60;bw2=60"}},
        {"algo=mgwr;bw=7;lo=6;hi=9;maxit=3;alow=6", {"n=9;p=2;hat=1;seed=6", "n=9;p=2;sel=cv;retry=1;hat=1;seed=6", "n=9;p=2;adaptive=0;bw=90;seed=6", "n=9;p=2;adaptive=0;bw=90", "n=9;p=2;hat=1", "n=10;p=3;hat=0;seed=4", "n=9;p=2;sel=cv;retry=1;hat=1", "n=9;p=2;sel=aic;init=init;retry=1;par=omp;thr=2", "n=9;p=2;par=omp;thr=3;hat=1", "n=9;p=3;layout=zero", "n=9;p=2;stop=25", "n=9;p=2;sel=cv;retry=1;stop=60", "n=9;p=2;center=1;crit=cvr", "n=9;p=2;sel=cv;mix=spec;retry=1"}},
        {"algo=ggwr;fam=poisson;bw=10;maxit=4", {"n=12;p=2;hat=1;seed=6", "n=12;p=2;hat=1;fam=binomial", "n=12;p=2;adaptive=0;bw=80;sel=cv;seed=6", "n=12;p=2;ops=P;nrp=4;seed=6", "n=12;p=2;hat=1", "n=12;p=2;hat=0;seed=4", "n=14;p=3;fam=binomial;hat=1", "n=12;p=2;par=omp;thr=2;hat=1", "n=12;p=2;adaptive=0;bw=80;sel=cv", "n=12;p=2;adaptive=0;bw=80;sel=aic;par=omp;thr=2", "n=12;p=3;layout=zero", "n=12;p=2;stop=4", "n=12;p=2;ops=P;nrp=4", "n=12;p=2;ops=P;nrp=15;fam=binomial"}},
        {"algo=lcr;bw=8;lam=0;cn=3", {"n=9;p=2;hat=1;seed=6", "n=10;p=2;adaptive=0;bw=60;sel=cv;seed=6", "n=9;p=2;ops=P;nrp=4;seed=6", "n=9;p=2;ladj=1;cn=2", "n=9;p=2;hat=1", "n=12;p=3;hat=1;seed=4;ladj=1", "n=9;p=2;hat=0", "n=9;p=2;par=omp;thr=2;ladj=1", "n=10;p=2;adaptive=0;bw=60;sel=cv", "n=10;p=2;adaptive=0;bw=60;sel=cv;par=omp;thr=2", "n=9;p=2;stop=4", "n=9;p=2;lam=0.3", "n=9;p=2;ops=P;nrp=4", "n=9;p=2;ops=P;nrp=12;par=omp;thr=2"}},
        {"algo=scal;bw=9", {"n=12;p=2;sel=cv;seed=6", "n=12;p=2;ops=P;nrp=4;seed=6", "n=12;p=2;sel=cv;poly=3", "n=12;p=2;sel=cv", "n=14;p=2;sel=aic;seed=4", "n=12;p=2;sel=cv;kernel=1;poly=2", "n=60;p=2;bw=52;sel=cv", "n=12;p=3;sel=cv;hat=0", "n=12;p=2;sel=cv;stop=5", "n=12;p=2;ops=P;nrp=4", "n=12;p=2;bw=20;sel=aic", "n=12;p=3;layout=zero;sel=cv"}},
        {"algo=gwss;bw=6", {"n=9;p=2;mode=avg;quant=1;seed=6", "n=9;p=3;mode=cor;seed=6", "n=9;p=3;mode=cor;adaptive=0;bw=70", "n=9;p=2;mode=avg;quant=1", "n=9;p=3;mode=avg;quant=0", "n=9;p=3;mode=cor", "n=9;p=3;mode=cor;first=1;par=omp;thr=2", "n=12;p=2;mode=avg;quant=1;par=omp;thr=3;seed=4", "n=9;p=2;mode=avg;stop=4", "n=9;p=1;mode=cor", "n=9;p=2;mode=cor;stop=4;par=omp;thr=2", "n=9;p=2;adaptive=0;bw=70;kernel=2"}},
        {"algo=gwpca;bw=7", {"n=9;p=3;k=2;seed=6", "n=9;p=3;k=2;adaptive=0;bw=90", "n=9;p=3;k=3", "n=9;p=3;k=2", "n=12;p=3;k=1;seed=4", "n=9;p=4;k=3;kernel=2", "n=9;p=3;k=2;stop=4", "n=10;p=3;k=2;adaptive=0;bw=80"}},
        {"algo=gwda;bw=12", {"n=14;p=2;ng=2;seed=6", "n=14;p=2;ng=3;gr=names", "n=14;p=2;ng=2;wqda=1;seed=6", "n=14;p=2;ng=2", "n=18;p=3;ng=3;seed=4", "n=14;p=2;ng=2;wqda=1", "n=14;p=2;ng=3;wqda=1;hcov=0;hprior=0", "n=14;p=2;ng=2;hmean=0;par=omp;thr=2", "n=14;p=2;ng=2;adaptive=0;bw=90"}},
    };
    for (auto& s : specs) {
        vector<KV> sym; for (auto& a : s.alts) { KV k(s.base); KV x(a); for (auto& p : x.m) k = k.with(p.first, p.second); if (!k.has("par") && s.base.find("scal") == string::npos && s.base.find("gwpca") == string::npos) k = k.with("par", "serial"); sym.push_back(k); }
        for (int i = 0; i < (int)sym.size(); i++) cs.push_back({s.base + ";last=" + s.alts[i], [=](Res& r) { caseHist(sym, i, th ? 4 : 3, r); }, th ? 600 : 120});
    }
});
