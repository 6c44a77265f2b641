// C20: prediction at arbitrary locations, for every order of fitting and predicting.
#include "common.h"
#include "scen.h"
#include "ref.h"
#include <algorithm>
using std::string; using std::vector; using namespace arma;
static void casePred(const KV& k, bool th, Res& r) {
    string ops = k.s("ops"), a = k.s("algo"); char last = ops.back(); Data d = makeData(k); const mat& L = last == 'Q' ? d.coords : d.pred; bool sel = a != "scal" && k.s("sel", "no") != "no" && ops.find('F') != string::npos;
    vector<KV> modes{k.with("par", "serial")}; if (a != "scal") for (int t : (th ? vector<int>{1, 2, 3, (int)L.n_rows + 1} : vector<int>{3, (int)L.n_rows + 2})) modes.push_back(k.with("par", "omp").with("thr", t));
    string alone = "P"; std::set<uint64_t> fps;
    for (auto& m : modes) {
        rt::ompCfg = rt::OmpConfig(); rt::ompCfg.maxThreads = std::max(1, m.i("thr", 1)); Env e; KV q = a == "scal" ? m : m.without("sel"); double bw = k.d("bw", 6);
        if (sel) { Out f = m.s("par") == "omp" ? runControlled(m.with("ops", "F"), e) : runScenario(m.with("ops", "F"), e); if (f.threw) { r.ctr["no_answer"]++; continue; } bw = f.v.at("bw")(0); q = m.without("sel").with("bw", fmt("%.17g", bw)); }
        Out o = m.s("par") == "omp" ? runControlled(m, e) : runScenario(m, e); r.execs++; r.states += ops.size(); r.transitions += ops.size(); r.validated++; fps.insert(fingerprint(o));
        string how = m.s("par") == "omp" ? m.s("thr") + " threads" : "serial"; double sc = 0, pe = 0; if (a == "scal" && !o.threw) { sc = o.v.at("scale")(0); pe = o.v.at("penalty")(0); }
        ref::Exp x = ref::expectPred(q, L, sc, pe);
        if (x.tie || !x.ok || x.rcond < (a == "scal" ? 1e-5 : 1e-9)) { r.ctr["no_verdict"]++; if (getenv("MC_VERBOSE")) fprintf(stderr, "no verdict %d %d %g\n", x.tie, x.ok, x.rcond); if (o.threw && o.exc[0] == '@') r.bad(m.s("par"), o.exc); continue; }
        if (o.threw) { r.bad(m.s("par"), how + ": exception " + o.exc); return; }
        if (last == 'F') {
            Out f = runScenario(k.with("ops", "F").with("par", "serial"), e); string df = diff(f, o, 1e-7); if (!df.empty()) { r.bad(m.s("par"), how + ": fitting after predicting differs from fitting: " + df); return; } r.ctr["refits"]++; continue;
        }
        string df = diff(x.o, o, std::min(1e-3, std::max(1e-6, 1e-13 / (x.rcond * x.rcond)))); if (!df.empty()) { r.bad(m.s("par"), how + ": " + df); return; }
        if (o.v.count("status") && o.v.at("status")(0) != 0) { r.bad(m.s("par"), how + ": the status is not success"); return; }
        r.ctr["predictions_compared"]++;
    }
    r.distinct += fps.size(); r.samples.push_back(k.str());
}
static Reg c20("C20", [](vector<Case>& cs, bool th) {
    vector<string> specs;
    for (string ops : {"ops=P|FP|PP|PF|FPFP|PFP;nrp=1|3|17", "ops=Q|FQ|PQ|QP;nrp=4"}) for (string s : {
        "algo=gwr;n=9;p=1|2|3;bw=8|8.5;kernel=0|2;hat=0|1", "algo=gwr;n=10;p=2;adaptive=0;bw=60;kernel=0|1|4", "algo=gwr;n=10;p=2;layout=grid|dup|far|geo;bw=9;kernel=0", "algo=gwr;n=10;p=2;dist=geo;layout=geo;bw=9;kernel=0|1", "algo=gwr;n=10;p=2;dist=mink;mp=1|3;bw=9;kernel=0", "algo=gwr;n=10;p=2;icpt=0;bw=9;kernel=0", "algo=gwr;n=10;p=2;bw=6|7;sel=no|cv|aic;lo=6;hi=10",
        "algo=robust;n=12;p=2;layout=rand|outlier;bw=10;kernel=0|2;filt=0|1", "algo=ggwr;fam=poisson|binomial;n=12;p=1|2;bw=11;kernel=0|2;hat=0|1", "algo=ggwr;fam=poisson;n=12;p=2;adaptive=0;bw=80", "algo=lcr;n=10;p=2|3;bw=9;kernel=0|2;lam=0|0.1;ladj=0|1;cn=3|30", "algo=lcr;n=10;p=2;adaptive=0;bw=70;ladj=1;cn=3",
        "algo=scal;n=12|20;p=2|3;bw=8|11;kernel=0|1;sel=cv|aic", "algo=scal;n=14;p=2;bw=9;poly=1|2|3|5;kernel=0|1;sel=cv|aic;hat=0|1", "algo=scal;n=14;p=2;icpt=0;bw=9|14|20;sel=cv", "algo=gwr|lcr;n=12;p=2;bw=10|14;kernel=0|1|2|3|4", "algo=robust;n=14;p=2;bw=13;kernel=1|3|4", "algo=ggwr;fam=poisson|binomial;n=14;p=2;bw=13;kernel=1|3|4;maxit=1|2|20;tol=1e-3|1e-7"}) specs.push_back(s + ";" + ops + (th ? ";seed=1|2|3|4" : ""));
    // wide tables of data
    for (string s : {"algo=gwr;n=14;p=2|3;" LAY ";" VAL ";bw=11;" K5 ";nrp=6;ops=P|FP", "algo=gwr;n=11;p=2;" LAY ";" VAL ";adaptive=0;bw=60|400;" K5 ";nrp=6;ops=P", "algo=gwr;n=12;p=2;icpt=0;" LAY ";vals=int|neg|pos|rep;bw=10;kernel=0|2;nrp=6;ops=P|Q", "algo=gwr;n=12;p=2;dist=mink;mp=1|3|-1;mth=0|0.5;" LAY ";bw=10;kernel=0|2;nrp=6;ops=P", "algo=gwr;n=50|101;p=2|3;bw=25|60;" K5 ";nrp=40|110;ops=P|FP",
        "algo=robust;n=14;p=2;" LAY ";" VAL ";bw=12;kernel=0|1|2;filt=0|1;nrp=6;ops=P|FP", "algo=ggwr;fam=poisson|binomial;n=16;p=2|3;" LAY ";" VAL ";bw=15;kernel=0|1;nrp=6;ops=P|FP;maxit=10", "algo=ggwr;fam=poisson|binomial;n=14;p=2;" LAY ";vals=int|neg|zeros;adaptive=0;bw=80|400;kernel=0|1;nrp=6;ops=P;maxit=10",
        "algo=lcr;n=14;p=2|3;" LAY ";" VAL ";bw=12;lam=0|0.3;ladj=0|1;cn=4|30;kernel=0|1;nrp=6;ops=P|FP", "algo=lcr;n=12;p=3;" LAY ";vals=int|neg|zeros;adaptive=0;bw=60|300;lam=0|0.2;ladj=0|1;cn=5;kernel=0|1;nrp=6;ops=P", "algo=gwr|robust|lcr;n=150|257;p=2|3;bw=60|140;kernel=0|1|2;nrp=200|300;ops=P;ladj=0|1;cn=4", "algo=ggwr;fam=poisson|binomial;n=150;p=2|3;bw=80|140;kernel=0|1|2;nrp=200;ops=P", "algo=gwr|robust|lcr;n=60;p=9|12;bw=58;kernel=0|1;nrp=20;ops=P|FP", "algo=scal;n=120;p=2|3;bw=60|100;kernel=0|1;nrp=150;ops=P|FP;sel=cv", "algo=scal;n=16;p=2|3;layout=rand|line|far|neg|cross|clus|iso|iso0|col;vals=int|dummy|big|neg|pos|zeros;bw=9|13;kernel=0|1;sel=cv|aic;nrp=6;ops=P|FP"}) specs.push_back(s);
    std::set<string> seen; for (auto& s : specs) for (auto& k : expand(s)) if (seen.insert(k.str()).second) cs.push_back({k.str(), [=](Res& r) { casePred(k, th, r); }, 60});
});
