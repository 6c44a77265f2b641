// C01: OpenMP execution is equivalent to serial execution, for every team size, every thread order
// and every interleaving with up to D deviations from the default scheduler.
#include "common.h"
#include "scen.h"
#include "ref.h"
#include <algorithm>
using std::string; using std::vector;

static string sched(const vector<int>& p) { string s; int i = 0; for (int c : p) { if (c) s += fmt("%d:%d ", i, c); i++; } return s.empty() ? "default" : s; }

// light: only a few team sizes and thread orders, for the wide tables of data
static void exploreCase(const KV& base, const vector<int>& thrs, int D, long cap, Res& r, bool light = false) {
    if (light && !ref::wellPosed(base)) { r.ctr["no_verdict"]++; return; }
    Env e; rt::ompCfg = rt::OmpConfig(); 
    Out ref = runScenario(base.with("par", "serial"), e); r.execs++; r.validated++;
    std::set<uint64_t> fps; bool reported = false;
    auto judge = [&](const Out& o, const string& how) {
        r.execs++; r.transitions += rt::ompStats.accesses; r.states += rt::ompStats.points.size() + 1;
        fps.insert(fingerprint(o));
        string d = diff(ref, o);
        if (!d.empty() && !reported) { reported = true; r.bad(o.threw && o.exc[0] == '@' ? o.exc.substr(1, 9) : "differs", how + ": " + d + (o.threw ? " [" + o.exc + "]" : "")); }
        return d.empty();
    };
    for (int thr : thrs) {
        KV k = base.with("par", "omp").with("thr", thr);
      // the runtime's default team size and processor count matter only to code that asks for them
      uint64_t asked = 0; vector<std::pair<int, int>> envs{{thr, 8}, {1, 1}, {thr + 3, 2}};
      for (size_t v = 0; v < envs.size() && !reported && (v == 0 || asked); v++) {
        rt::ompClearConflicts();
        auto fresh = [&]() { rt::ompCfg = rt::OmpConfig(); rt::ompCfg.maxThreads = envs[v].first; rt::ompCfg.procs = envs[v].second; rt::ompCfg.record = true; };
        // 1. every team size the runtime may grant, every whole-team thread order
        for (int team = 1; team <= thr && !reported; team++) {
            int perms = 1; for (int i = 2; i <= std::min(team, 4); i++) perms *= i;
            for (int perm = 0; perm < perms && !reported; perm++) {
                if (light && ((team != thr && team != (thr + 1) / 2) || (perm && perm != perms - 1))) continue;
                fresh(); rt::ompCfg.teamLimit = team; rt::ompCfg.orderRegion = -2; rt::ompCfg.orderPerm = perm;
                Out o = runControlled(k, e); rt::ompMergeConflicts();
                r.ctr["regions"] += rt::ompStats.regions; r.ctr["schedules"]++; asked += rt::ompStats.envQueries;
                judge(o, fmt("threads=%d team=%d thread-order=%d", thr, team, perm));
            }
        }
        r.ctr["conflict_granules"] += rt::ompConflictCount();
        if (reported || D <= 0) continue;
        // 2. interleavings: stop at every access to a conflicting granule and every sync operation
        long n = 0; bool again = true; int rounds = 0;
        while (again && rounds++ < 3 && !reported) {
            again = false; vector<std::pair<vector<int>, int>> st{{{}, 0}};
            while (!st.empty() && !reported) {
                auto [pre, used] = st.back(); st.pop_back();
                if (n >= cap) { r.capped++; st.clear(); break; }
                fresh(); rt::ompCfg.explore = true; rt::ompCfg.prefix = pre;
                Out o = runControlled(k, e); n++; auto pts = rt::ompStats.points;
                r.ctr["schedules"]++; if (rt::ompMergeConflicts() > 0) again = true;
                if (!judge(o, fmt("threads=%d schedule ", thr) + sched(pre))) break;
                if (used >= D) continue;
                for (size_t i = pre.size(); i < pts.size(); i++) for (int c = 1; c < pts[i].enabled; c++) { vector<int> q(i + 1, 0); for (size_t j = 0; j < i; j++) q[j] = pts[j].chosen; q[i] = c; st.push_back({q, used + 1}); }
            }
        }
      }
    }
    r.distinct += fps.size();
    r.samples.push_back(base.str() + fmt(" -> %llu runs, %d distinct results ", (unsigned long long)r.execs, (int)fps.size()) + brief(ref));
}

static Reg reg("C01", [](vector<Case>& cs, bool th) {
    struct S { const char* spec; int D; };
    vector<S> specs = {
        // calibration, no selection
        {"algo=gwr;n=7|9;p=2|3;bw=6;hat=0|1;kernel=0|2", 2},
        {"algo=gwr;n=6;p=1|2;icpt=0;bw=5;hat=0|1;kernel=1|4", 1},
        {"algo=gwr;n=9;p=2;bw=0.9;adaptive=0;hat=0|1;storeC=1;storeS=1;kernel=0", 1},
        {"algo=gwr;n=8;p=2;layout=dup|line|grid;bw=6;hat=1", 1},
        {"algo=gwr;n=9;p=2;bw=6;nrp=1|5;ops=P|FP|PF|FQ", 1},
        {"algo=gwr;n=9;p=3;layout=sing;bw=6;hat=0|1;ops=F|P", 1},
        // bandwidth and variable selection
        {"algo=gwr;n=9;p=2;sel=cv|aic;lo=4;hi=9", 1},
        {"algo=gwr;n=9;p=2;sel=cv|aic;adaptive=0", 1},
        {"algo=gwr;n=9;p=4;var=1;thd=1|3;bw=8", 1},
        {"algo=gwr;n=9;p=4;var=1;sel=cv|aic;lo=5;hi=9;bw=8", 1},
        {"algo=gwr;n=9;p=3;layout=sing;sel=cv|aic;lo=5;hi=9", 1},
        {"algo=robust;n=9;p=2;layout=rand|outlier;bw=7;hat=1;filt=0|1", 1},
        {"algo=robust;n=9;p=2;bw=7;hat=0|1;nrp=4;ops=P", 1},
        {"algo=gtwr;n=8;p=2;bw=6;hat=0|1;lambda=0.05|0.5;kernel=0|2", 1},
        {"algo=gtwr;n=8;p=2;bw=6;nrp=3;ops=Q", 1},
        {"algo=gtwr;n=24;p=2;sel=cv|aic;lambda=0.3;order=cp|pc", 0},
        {"algo=gtwr;n=8;p=2;sel=cv|aic;adaptive=0;lambda=0.3", 1},
        {"algo=gwdr;n=9;p=2;bw=7;bw2=8;hat=0|1;kernel=0|2", 1},
        {"algo=gwdr;n=9;p=2;dims=1|3;bw=8;bw2=9;hat=1", 1},
        {"algo=gwdr;n=12;p=2;bw=10;bw2=10;sel=cv|aic;maxit=40;bweps=0.1", 1},
        {"algo=gwdr;n=9;p=4;bw=9;bw2=9;var=1;thd=1|3", 1},
        {"algo=mgwr;n=8;p=2;lo=5;hi=8;bw=7;hat=0|1;maxit=3", 1},
        {"algo=mgwr;n=9;p=2;sel=cv|aic;lo=5;hi=9;alow=5;retry=1;maxit=2;hat=1", 1},
        {"algo=mgwr;n=9;p=2;sel=cv|aic;init=init;lo=5;hi=9;alow=5;bw=7;retry=1;maxit=2;hat=1", 1},
        {"algo=mgwr;n=8;p=2;sel=cv|aic;adaptive=0;retry=1;maxit=2;hat=0", 1},
        {"algo=ggwr;n=9;p=2;fam=poisson|binomial;bw=8;hat=1;maxit=5", 1},
        {"algo=ggwr;n=24;p=2;fam=poisson|binomial;sel=cv|aic;maxit=3", 0},
        {"algo=ggwr;n=9;p=2;fam=poisson|binomial;sel=cv|aic;adaptive=0;maxit=3;hat=1", 0},
        {"algo=lcr;n=9;p=3;bw=7;hat=0|1;lam=0|0.1;ladj=0|1;cn=5", 1},
        {"algo=lcr;n=9;p=2;bw=7;nrp=4;ops=P|FP|FF", 1},
        {"algo=ggwr;n=9;p=2;fam=poisson|binomial;bw=8;hat=0;maxit=5", 1},
        {"algo=ggwr;n=9;p=2;fam=poisson|binomial;bw=8;nrp=4;ops=P|FP;maxit=5", 1},
        {"algo=ggwr;n=10;p=3;fam=poisson|binomial;bw=9;layout=zero;hat=0|1;maxit=3", 0},
        {"algo=lcr;n=9;p=3;layout=collin;bw=7;nrp=4|12;ladj=1;cn=3;ops=P|FP", 1},
        {"algo=gtwr;n=8;p=3;layout=zero;bw=6;hat=0|1;lambda=0.5", 0},
        {"algo=gwdr;n=9;p=3;layout=zero;bw=8;bw2=8;hat=0|1", 0},
        {"algo=mgwr;n=8;p=3;layout=zero;lo=5;hi=8;bw=7;hat=0|1;maxit=2", 0},
        {"algo=gtwr;n=10;p=2;autolam=1;bw=8;lambda=0.2;kernel=0", 0},
        {"algo=lcr;n=24;p=2;sel=cv", 0},
        {"algo=lcr;n=8;p=2;sel=cv;adaptive=0", 1},
        {"algo=gwss;n=9;p=2|3;bw=6;mode=avg;quant=0|1;kernel=0|2", 1},
        {"algo=gwss;n=9;p=2|3;bw=6;mode=cor;first=0|1;kernel=0|2", 1},
        {"algo=gwda;n=12;p=2;ng=2|3;bw=10;wqda=0|1", 1},
        {"algo=gwda;n=12;p=2;ng=3;bw=10;wqda=0|1;hcov=0|1;hmean=0|1;hprior=0|1", 0},
    };
    for (auto& s : specs) for (auto& k : expand(s.spec)) {
        int n = k.i("n"); vector<int> thrs = th ? vector<int>{2, 3, 4, n + 2} : (n <= 12 ? vector<int>{2, 3, n + 2} : vector<int>{2, 3});
        int D = s.D + 1; if (th) D++;
        for (int t : thrs) { KV kk = k; int d = (t == 2) ? D : (t == 3 ? std::min(D, th ? 2 : 1) : (th ? 1 : 0)); long cap = th ? 30000 : 2500;
            cs.push_back({kk.str() + fmt(";T=%d", t), [=](Res& r) { exploreCase(kk, {t}, d, cap, r); }, th ? 600 : 120}); }
    }
    vector<string> wide = {
        "algo=gwr;n=14;p=2|3;" LAY ";" VAL ";bw=11;kernel=0|1|2;hat=0|1", "algo=gwr;n=11;p=2;" LAY ";" VAL ";adaptive=0;bw=70|400;kernel=0|1;hat=1;storeC=1", "algo=gwr;n=40|101;p=2|4;bw=25|60;" K5 ";hat=0|1;seed=2|3", "algo=gwr;n=13;p=2;layout=rand|neg|cross|clus;vals=big|neg|pos|zeros;sel=cv|aic;lo=7;hi=12;kernel=0|1", "algo=gwr;n=12;p=4;layout=rand|neg|cross;vals=big|neg|pos;var=1;thd=0.5|5;bw=11;kernel=0|1", "algo=gwr;n=12;p=2;" LAY ";vals=int|pos;bw=10;nrp=1|7|30;ops=P|FP|PF|Q;kernel=0|2", "algo=gwr;n=12;p=2;dist=mink;mp=1|3;layout=rand|neg|dup;bw=10;" K5 "", "algo=gwr;n=12;p=2;dist=geo;layout=geo;bw=10|30;adaptive=1|0;kernel=0|1|2", "algo=gwr;n=40;p=2|3;sel=cv|aic;kernel=0|1|2",
        "algo=robust;n=14;p=2|3;" LAY ";vals=big|neg|pos|zeros;bw=12;kernel=0|1|2;filt=0|1;hat=1", "algo=robust;n=26;p=2;layout=outlier|outlier1;seed=1|2|3;bw=20;sel=no|cv|aic;filt=0|1", "algo=robust;n=14;p=2;layout=outlier|neg|dup;bw=12;nrp=1|7|30;ops=P|FP",
        "algo=gtwr;n=14;p=2;tm=same|frac|seq|neg|big;" LAY ";vals=int|neg|zeros;bw=12;kernel=0|1|2;lambda=0.3|0.8;hat=0|1", "algo=gtwr;n=26;p=2;tm=frac|seq;sel=cv|aic;lambda=0.3|0.9;kernel=0|1", "algo=gtwr;n=14;p=2;tm=frac|seq;angle=0.7;adaptive=0;bw=60|200;lambda=0.4;kernel=0|1", "algo=gtwr;n=12;p=2;tm=frac|seq;autolam=1;lambda=0.3;bw=11;kernel=0|1",
        "algo=gwdr;n=14;p=2|3;dims=1|2|3;" LAY ";vals=int|neg|zeros;bw=12;bw2=13;kernel=0|1|2;hat=0|1", "algo=gwdr;n=12;p=2;dims=1|2|3;adaptive=0;bw=70;bw2=50;sel=cv|aic;maxit=60;bwstep=2;bweps=0.2;kernel=0", "algo=gwdr;n=12;p=4;dims=1|2|3;layout=rand|neg|cross;adaptive=1|0;bw=11;bw2=12;var=1;thd=0.5|5;kernel=0",
        "algo=mgwr;n=12;p=2|3;layout=rand|neg|cross|clus|iso;vals=int|neg|zeros|big;lo=8;hi=12;bw=9;bw1=11;kernel=0|1;hat=0|1;center=0|1;maxit=3", "algo=mgwr;n=14;p=2;layout=rand|neg|cross;vals=int|neg|big;sel=cv|aic;lo=8;hi=14;alow=8;retry=2;maxit=3;kernel=0|1;hat=0|1", "algo=mgwr;n=11;p=2;adaptive=0;bw=60;bw1=200;layout=rand|neg|cross;sel=no|cv|aic;retry=1;maxit=3;kernel=0|1",
        "algo=ggwr;fam=poisson|binomial;n=16;p=2|3;layout=rand|neg|cross|dup|iso;vals=int|neg|zeros|pos;bw=15;kernel=0|1|2;hat=0|1;maxit=5", "algo=ggwr;fam=poisson|binomial;n=14;p=2;layout=rand|neg|cross|dup;bw=13;nrp=1|7|30;ops=P|FP;kernel=0|1;maxit=5", "algo=ggwr;fam=poisson|binomial;n=30;p=2;sel=cv|aic;kernel=0|1;maxit=5",
        "algo=lcr;n=14;p=2|3;" LAY ";vals=int|neg|zeros|big|pos;bw=12;lam=0|0.3;ladj=0|1;cn=3|30;kernel=0|1;hat=0|1", "algo=lcr;n=12;p=3;layout=rand|neg|collin;bw=11;nrp=1|7|30;ops=P|FP;ladj=0|1;cn=4", "algo=lcr;n=30;p=2|3;layout=rand|collin|dup;sel=cv;ladj=0|1;cn=4;kernel=0|1",
        "algo=gwss;n=14;p=2|3;" LAY ";" VAL ";bw=10;kernel=0|1|2;mode=avg;quant=0|1", "algo=gwss;n=14;p=3;" LAY ";" VAL ";bw=10;kernel=0|1|2;mode=cor;first=0|1", "algo=gwss;n=40|101;p=2|3;" K5 ";bw=30;mode=avg|cor;quant=1",
        "algo=gwda;n=20;p=2|3;ng=2|3|4;gr=names|rev|unbal|late;layout=rand|dup|cross|neg;bw=18;kernel=0|1;wqda=0|1", "algo=gwda;n=24;p=2;ng=2|3;adaptive=0;bw=80|300;" K5 ";wqda=0|1;hcov=0|1;hmean=0|1;hprior=0|1" };
    std::set<string> seen; size_t ord = 0;
    for (auto& s : wide) for (auto& k : expand(s)) { if (!seen.insert(k.str()).second) continue; vector<int> thrs{vector<int>{2, 3, 5, 4, 7}[ord++ % 5]}; thrs.push_back(ord % 2 ? k.i("n") + 2 : 8); if (th) thrs = {2, 3, 4, 5, 7, 8, k.i("n") + 2};
        cs.push_back({"wide;" + k.str(), [=](Res& r) { exploreCase(k, thrs, 0, 1, r, true); }, 60}); }
});
