// C03: cancellation at every poll.  C23: what is reported to the caller's monitor.
#include "common.h"
#include "scen.h"
#include <algorithm>
using std::string; using std::vector; using namespace arma;
namespace {
Out go(const KV& k, TeleState& t, int perm = 0) {
    Env e; e.tele = &t; rt::ompCfg = rt::OmpConfig(); rt::ompCfg.maxThreads = std::max(1, k.i("thr", 1)); rt::ompCfg.teamLimit = k.i("team", 64);
    if (perm) { rt::ompCfg.orderRegion = -2; rt::ompCfg.orderPerm = perm; }
    gDistCalls = 0;
    if (k.s("par") == "omp") return runControlled(k, e); return runScenario(k, e);
}
const std::map<string, int> PRE{{"gwr", 0}, {"gwss", 0}, {"gwpca", 0}, {"lcr", 0}, {"robust", 1}, {"gtwr", 1}, {"ggwr", 1}, {"scal", 1}, {"gwdr", 2}, {"mgwr", 3}};   // distance passes made before the first poll
void caseStop(const KV& k, Res& r) {
    TeleState t0; t0.record = true; rt::lapack = rt::LapackCfg(); Out full = go(k, t0); r.execs++; r.validated++; long N = t0.polls; string a = k.s("algo"); int n = k.i("n"), thr = k.i("thr", 1); bool sel = k.s("sel", "no") != "no", var = k.i("var");
    if (full.threw) { r.bad("uncancelled", "without cancellation: " + full.exc); return; }
    if (full.v.count("status") && full.v.at("status")(0) != 0) { r.bad("uncancelled", "status of an uncancelled calculation is not success"); return; }
    if (gDistCalls == 0) { r.bad("harness", "no distance was evaluated"); return; }
    // the caller is asked at least once between two local models
    long gap = 0, last = 0, sgap = 0, slast = 0; for (auto& e : t0.events) if (e.kind == 3) { gap = std::max(gap, (long)e.a - last); last = (long)e.a; sgap = std::max(sgap, (long)e.b - slast); slast = (long)e.b; }
    gap = std::max(gap, gDistCalls - last); sgap = std::max(sgap, rt::lapack.count - slast); long tot = gDistCalls, stot = rt::lapack.count;
    long pre = (a == "lcr" && sel ? 1 : PRE.at(a)); if (a == "gwr" && sel && !k.i("adaptive", 1)) pre = 1; if (a == "gwdr") pre = k.i("dims", 2); if (a == "mgwr" && !k.i("adaptive", 1)) pre = 60;   // the initial regression searches its bandwidth without asking
    if (gap > pre * n + (a == "scal" && full.v.count("pred") ? k.i("nrp", 4) : 0) + 2 * thr) r.bad("asks", fmt("%ld of %ld distance vectors are computed without asking whether to stop", gap, tot));
    long models = (long)(full.v.count("pred") ? k.i("nrp", 4) : n) * (1 + (full.v.count("bwlist") ? (long)full.v.at("bwlist").n_rows : 0)); if (N < models) r.bad("asks", fmt("%ld requests for %ld local models", N, models));
    long mx = 0, mp = 0, md = 0, ms = 0; std::set<uint64_t> fp; bool done = false;
    for (long s = 0; s < N && !done; s++) for (int perm = 0; perm < (thr > 1 ? 2 : 1); perm++) {
        TeleState t; t.stopAt = s; t.record = true; rt::lapack = rt::LapackCfg(); Out o = go(k, t, perm); r.execs++; r.states++; r.transitions += t.polls; r.validated++; fp.insert(fingerprint(o));
        long prog = 0, seen = 0; for (auto& e : t.events) { if (e.kind == 3) seen++; else if (seen > s && (e.kind == 1 || e.kind == 2)) prog++; }
        string at = fmt("request at poll %ld of %ld%s: ", s, N, perm ? ", other thread order" : ""); auto bad = [&](const char* key, const string& w) { r.bad(key, at + w); done = true; };
        if (o.threw) { bad("throws", "exception " + o.exc); continue; }
        bool firstOp = false; if (k.s("ops") == "FP" && s < N - k.i("nrp", 4) - 2) firstOp = true;
        if (o.v.count("status") && o.v.at("status")(0) != 1) { bad("status", "the status does not tell that the calculation was cancelled"); continue; }
        for (const char* q : {"ret", "pred"}) if (full.v.count(q)) { const mat &x = full.v.at(q), &y = o.v.at(q); if (y.n_rows != x.n_rows || (y.n_cols != x.n_cols && !(var && (int)y.n_cols == k.i("p")))) { bad("shape", fmt("the result is %dx%d instead of %dx%d", (int)y.n_rows, (int)y.n_cols, (int)x.n_rows, (int)x.n_cols)); break; } }
        if (sel && a != "scal" && full.v.count("bw")) { const mat &x = full.v.at("bw"), &y = o.v.at("bw"); for (uword i = 0; i < x.n_elem && !done; i++) if (a != "gwdr" && a != "mgwr" && y(i) != x(i) && y(i) != k.d("bw", 6)) bad("bandwidth", fmt("the bandwidth is %.10g, neither the configured nor the selected one", y(i))); }
        if (!firstOp) { mx = std::max(mx, t.pollsAfterStop); mp = std::max(mp, prog); md = std::max(md, gDistCalls - t.distAtStop); ms = std::max(ms, rt::lapack.count - t.solvesAtStop);
            if (gDistCalls - t.distAtStop > thr) bad("goes on", fmt("%ld distance vectors are computed after the request", gDistCalls - t.distAtStop));
            if (prog > 1 + thr) bad("goes on", fmt("%ld progress reports after the request", prog)); }
    }
    r.distinct += fp.size(); r.samples.push_back(k.str() + fmt(" -> %ld polls, each tried; after the request at most %ld polls, %ld progress reports, %ld distance vectors, %ld solves; at most %ld of %ld distance vectors and %ld of %ld solves between polls", N, mx, mp, md, ms, gap, tot, sgap, stot));
    if (getenv("MC_VERBOSE")) fprintf(stderr, "%s\n", r.samples.back().c_str());
}
}
static vector<string> table() { return {
    "algo=gwr;n=8;p=2;bw=6;hat=0|1", "algo=gwr;n=8;p=2;sel=cv|aic;lo=5;hi=8;hat=0|1", "algo=gwr;n=8;p=3;bw=7;var=1;thd=1;hat=1", "algo=gwr;n=8;p=3;bw=7;var=1;thd=1;sel=cv|aic;lo=5;hi=8", "algo=gwr;n=8;p=2;bw=6;nrp=3;ops=P|FP",
    "algo=robust;n=9;p=2;layout=outlier;bw=8;hat=1;filt=0|1", "algo=robust;n=9;p=2;bw=8;nrp=3;ops=P", "algo=robust;n=9;p=2;layout=outlier;bw=8;hat=1;filt=0|1;sel=cv|aic;lo=6;hi=9",
    "algo=gtwr;n=8;p=2;bw=7;lambda=0.4;hat=0|1", "algo=gtwr;n=8;p=2;adaptive=0;sel=cv|aic;lambda=0.4", "algo=gtwr;n=8;p=2;bw=7;lambda=0.4;autolam=1",
    "algo=gwdr;n=8;p=2;bw=8;bw2=8;hat=0|1", "algo=gwdr;n=12;p=2;bw=10;bw2=10;sel=cv|aic;maxit=40;bweps=0.1", "algo=gwdr;n=9;p=3;bw=9;bw2=9;var=1;thd=1",
    "algo=mgwr;n=8;p=2;lo=5;hi=8;bw=7;hat=0|1;maxit=2", "algo=mgwr;n=8;p=2;sel=cv|aic;lo=6;hi=8;alow=6;retry=1;maxit=2",
    "algo=ggwr;fam=poisson|binomial;n=10;p=2;bw=9;hat=0|1;maxit=3", "algo=ggwr;fam=poisson|binomial;n=10;p=2;adaptive=0;sel=cv|aic;maxit=2", "algo=ggwr;fam=poisson|binomial;n=10;p=2;bw=9;nrp=3;ops=P;maxit=3",
    "algo=lcr;n=8;p=2;bw=7;hat=0|1;ladj=0|1;cn=3", "algo=lcr;n=8;p=2;adaptive=0;sel=cv", "algo=lcr;n=8;p=2;bw=7;nrp=3;ops=P|FP",
    "algo=scal;n=12;p=2;bw=8;sel=cv|aic", "algo=scal;n=12;p=2;bw=8;nrp=3;ops=P|FP",
    "algo=gwss;n=8;p=2;bw=6;mode=avg|cor;quant=1", "algo=gwpca;n=8;p=3;bw=7;k=2",
    "algo=gwr|gtwr|gwdr|ggwr|lcr;n=12;p=5;bw=12;bw2=12;lambda=0.4;maxit=2;layout=rand;hat=0|1", "algo=mgwr|robust;n=12;p=5;bw=12;lo=11;hi=12;maxit=2;hat=1", "algo=gwr;n=12;p=5;sel=cv|aic;lo=10;hi=12",
    "algo=gwr;n=9;p=1|3;adaptive=0;bw=70;kernel=0|3;hat=0|1;icpt=0|1", "algo=gwr;n=9;p=2;sel=cv|aic;adaptive=0;kernel=1;hat=1", "algo=gwr;n=10;p=4;bw=9;var=1;thd=5;icpt=0|1", "algo=gwr;n=9;p=2;bw=8;layout=dup|far", "algo=gwr;n=9;p=2;bw=8;nrp=1|12;ops=P|PF", "algo=gwr;n=25|41;p=2;bw=20;hat=0|1",
    "algo=robust;n=10;p=2;layout=rand|outlier1;adaptive=0;bw=80;kernel=1;filt=0|1;hat=1", "algo=robust;n=10;p=2;bw=9;nrp=1|12;ops=P|FP", "algo=robust;n=10;p=4;bw=10;var=1;thd=1;filt=0",
    "algo=gtwr;n=9;p=2;tm=same;adaptive=0;bw=80;lambda=0.4;hat=0|1;kernel=1", "algo=gtwr;n=8;p=2;bw=7;lambda=0.4;nrp=3;ops=Q", "algo=gtwr;n=23;p=2;sel=cv|aic;lambda=0.4;hat=1",
    "algo=gwdr;n=9;p=2;dims=1|3;bw=8;bw2=9;hat=0|1", "algo=gwdr;n=9;p=2;adaptive=0;bw=90;bw2=80;hat=1;kernel=1", "algo=gwdr;n=10;p=4;adaptive=0;bw=90;bw2=90;var=1;thd=1",
    "algo=mgwr;n=9;p=3;lo=6;hi=9;bw=8;bw1=7;center=1;crit=cvr|dcvr;hat=0|1;maxit=1|3", "algo=mgwr;n=9;p=2;sel=cv|aic;init=init;lo=6;hi=9;alow=6;bw=7;retry=1;maxit=2;hat=1", "algo=mgwr;n=9;p=2;adaptive=0;bw=80;bw1=90;hat=1;maxit=2",
    "algo=ggwr;fam=poisson|binomial;n=10;p=2;adaptive=0;bw=90;kernel=1;hat=0|1;maxit=1|5", "algo=ggwr;fam=poisson|binomial;n=10;p=2;bw=9;nrp=1|12;ops=P|FP;maxit=3", "algo=ggwr;fam=poisson|binomial;n=23;p=2;sel=cv|aic;maxit=2",
    "algo=lcr;n=9;p=3;bw=8;hat=0|1;lam=0.2;kernel=1", "algo=lcr;n=23;p=2;sel=cv;ladj=0|1;cn=4", "algo=lcr;n=9;p=2;bw=8;nrp=1|12;ops=P|PF",
    "algo=scal;n=14;p=3;bw=9;kernel=0|1;poly=2|5;sel=cv|aic;hat=0|1", "algo=scal;n=14;p=2;bw=9;nrp=1|16;ops=P|FP", "algo=gwss;n=9;p=3;bw=7;mode=avg|cor;quant=0|1;first=0|1;adaptive=1", "algo=gwss;n=9;p=2;bw=70;adaptive=0;mode=avg|cor;quant=1;kernel=1|4", "algo=gwpca;n=10;p=4;bw=8;k=1|3;kernel=0|2", "algo=gwpca;n=9;p=3;bw=70;adaptive=0;k=2" }; }
static Reg c03("C03", [](vector<Case>& cs, bool th) {
    for (auto& s : table()) for (auto& k0 : expand(s)) { KV k = k0; k = k.with("count", 1);
        cs.push_back({k.str(), [=](Res& r) { caseStop(k.with("par", "serial"), r); }, th ? 600 : 120});
        if (k.s("algo") != "scal" && k.s("algo") != "gwpca") for (int t : {2, 3}) cs.push_back({k.str() + fmt(";T=%d", t), [=](Res& r) { caseStop(k.with("par", "omp").with("thr", t), r); }, th ? 600 : 120}); }
});
