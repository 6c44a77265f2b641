// C27: objects that belong to different threads do not disturb each other.
#include "common.h"
#include "scen.h"
#include <omp.h>
using std::string; using std::vector;
static string sched(const vector<int>& p) { string s; int i = 0; for (int c : p) { if (c) s += fmt("%d:%d ", i, c); i++; } return s.empty() ? "default" : s; }
namespace {
struct Pair { vector<KV> k; vector<Out> o; };
// what a monitor was told, in order; figures and messages alike
string told(const TeleState& a, const TeleState& b) {
    size_t n = std::max(a.events.size(), b.events.size()); auto show = [](const Event& e) { return e.kind == 0 ? "\"" + e.msg + "\"" : e.kind == 3 ? string("a question whether to stop") : fmt("progress %g %g", e.a, e.b); };
    for (size_t i = 0; i < n; i++) { if (i >= a.events.size() || i >= b.events.size()) return fmt("the monitor is called %zu times instead of %zu", b.events.size(), a.events.size()); const Event &x = a.events[i], &y = b.events[i]; if (x.kind != y.kind || x.msg != y.msg || x.level != y.level || (x.kind != 3 && (x.a != y.a || x.b != y.b))) return "the monitor is told " + show(y) + " instead of " + show(x); }
    return "";
}
void together(const Pair& p, vector<Out>& res, TeleState* t) {
    int m = (int)p.k.size(); vector<Out> o(m); vector<KV> k = p.k; Env e[4]; for (int i = 0; i < m; i++) { t[i] = TeleState(); t[i].record = true; e[i].tele = &t[i]; }
    rt::ompBegin();
    #pragma omp parallel num_threads(m)
    { int t = omp_get_thread_num(); Out r = runScenario(k[t], e[t]); { rt::EnvGuard g; o[t] = r; } }
    rt::ompEnd();
    res = o;
}
void explore(const vector<KV>& ks, int D, long cap, Res& r) {
    Pair p; p.k = ks; vector<Out> ref; TeleState rt_[4], t[4]; for (size_t i = 0; i < ks.size(); i++) { rt::ompCfg = rt::OmpConfig(); Env e; rt_[i].record = true; e.tele = &rt_[i]; ref.push_back(runControlled(ks[i], e)); r.execs++; }
    std::set<uint64_t> fps; bool rep = false; vector<Out> o; int m = (int)ks.size();
    auto fresh = [&]() { rt::ompCfg = rt::OmpConfig(); rt::ompCfg.maxThreads = m; rt::ompCfg.record = true; };
    auto judge = [&](const string& how) {
        r.execs++; r.transitions += rt::ompStats.accesses; r.states += rt::ompStats.points.size() + 1; r.validated += m;
        for (int i = 0; i < m; i++) { fps.insert(fingerprint(o[i]) * 31 + i); string d = diff(ref[i], o[i]); if (d.empty() && ks[i].s("par") == "serial") d = told(rt_[i], t[i]); if (!d.empty() && !rep) { rep = true; r.bad("differs", how + ", " + ks[i].s("algo") + ": " + d); } }
    };
    rt::ompClearConflicts(); int perms = 1; for (int i = 2; i <= m; i++) perms *= i;
    for (int q = 0; q < perms && !rep; q++) { fresh(); rt::ompCfg.orderRegion = -2; rt::ompCfg.orderPerm = q; try { together(p, o, t); } catch (const std::exception& x) { r.bad("terminate", x.what()); return; } judge(fmt("order %d", q)); r.ctr["schedules"]++; }
    r.ctr["conflict_granules"] += rt::ompConflictCount(); size_t cf = rt::ompConflictCount(); long n = 0;
    vector<std::pair<vector<int>, int>> st; if (cf && !rep) st.push_back({{}, 0});
    while (!st.empty() && !rep) {
        auto [pre, used] = st.back(); st.pop_back(); if (n++ >= cap) { r.capped++; break; }
        fresh(); rt::ompCfg.explore = true; rt::ompCfg.prefix = pre; try { together(p, o, t); } catch (const std::exception& x) { r.bad("terminate", x.what()); return; }
        auto pts = rt::ompStats.points; r.ctr["schedules"]++; judge("schedule " + sched(pre)); if (rep || used >= D) continue;
        for (size_t i = pre.size(); i < pts.size(); i++) for (int c = 1; c < pts[i].enabled; c++) { vector<int> q(i + 1, 0); for (size_t j = 0; j < i; j++) q[j] = pts[j].chosen; q[i] = c; st.push_back({q, used + 1}); }
    }
    r.distinct += fps.size(); r.samples.push_back(ks[0].str() + " with " + ks[1].str() + fmt(" -> %zu shared granules", cf)); if (getenv("MC_VERBOSE")) fprintf(stderr, "%s\n", r.samples.back().c_str());
}
// one calculation started from inside the monitor of another, at every call of the monitor
void nested(const KV& outer, const KV& inner, long full, Res& r) {
    Env e0; Out ro, ri; { TeleState t; long n = 0; t.record = true; t.onCall = [&](long) { n++; }; Env e; e.tele = &t; ro = runScenario(outer, e); ri = runScenario(inner, e0); r.execs += 2; r.ctr["monitor_calls"] += n;
        std::set<uint64_t> fps;
        for (long i = 0; i < n; i++) {
            if (n > full && i >= full / 2 && i < n - full / 2 && i % std::max(1L, n / 10)) continue;
            TeleState q; q.record = true; Out in; q.onCall = [&](long c) { if (c == i) { Env f; in = runScenario(inner, f); } }; Env f; f.tele = &q; Out o = runScenario(outer, f); r.execs++; r.states++; r.transitions += q.calls; r.validated += 2; fps.insert(fingerprint(o) * 31 + fingerprint(in));
            string d = diff(ro, o); if (d.empty()) d = told(t, q); if (d.empty()) { d = diff(ri, in); if (!d.empty()) d = "the inner one: " + d; } if (!d.empty()) { r.bad("nested", fmt("started in monitor call %ld of %ld: ", i, n) + d); return; }
        }
        r.distinct += fps.size(); }
}
}
static Reg reg("C27", [](vector<Case>& cs, bool th) {
    vector<string> one{
        "algo=gwr;n=8;p=3;sel=cv;lo=5;hi=8;var=1;thd=3;bw=8;hat=1", "algo=gwr;n=8;p=2;bw=6;nrp=3;ops=FP",
        "algo=robust;n=9;p=2;layout=outlier;bw=8;hat=1;filt=1", "algo=gtwr;n=8;p=2;adaptive=0;sel=aic;lambda=0.4;hat=1", "algo=gwdr;n=9;p=2;bw=8;bw2=9;hat=1",
        "algo=mgwr;n=8;p=2;sel=cv;lo=6;hi=8;alow=6;retry=1;maxit=2", "algo=ggwr;fam=poisson;n=9;p=2;bw=8;hat=1;maxit=4", "algo=ggwr;fam=binomial;n=9;p=2;bw=8;hat=1;maxit=4",
        "algo=lcr;n=8;p=3;bw=7;hat=1;ladj=1;cn=3", "algo=scal;n=12;p=2;bw=8;hat=1", "algo=gwss;n=8;p=2;bw=6;mode=avg;quant=1", "algo=gwss;n=8;p=2;bw=6;mode=cor",
        "algo=gwpca;n=8;p=3;bw=7;k=2", "algo=gwda;n=12;p=2;ng=3;bw=10;wqda=1",
        // the other criteria, families and modes
        "algo=gwr;n=8;p=3;sel=aic;lo=5;hi=8;bw=8;hat=0", "algo=robust;n=12;p=2;sel=aic;lo=8;hi=12;filt=0;hat=1", "algo=robust;n=12;p=2;layout=outlier;bw=9;filt=0;nrp=3;ops=FP", "algo=gtwr;n=8;p=2;adaptive=0;sel=cv;lambda=0.4;hat=0", "algo=gtwr;n=8;p=2;adaptive=0;bw=90;lambda=0.4;autolam=1;hat=1",
        "algo=gwdr;n=12;p=3;bw=12;bw2=12;sel=cv;hat=1", "algo=gwdr;n=12;p=3;bw=12;bw2=12;sel=aic;hat=1", "algo=gwdr;n=9;p=3;bw=9;bw2=9;var=1;thd=1", "algo=mgwr;n=8;p=2;sel=aic;init=init;lo=6;hi=8;alow=6;bw=7;retry=1;maxit=2;hat=1",
        "algo=ggwr;fam=poisson;n=22;p=2;sel=cv;hat=1;maxit=3", "algo=ggwr;fam=binomial;n=22;p=2;sel=aic;maxit=3", "algo=ggwr;fam=poisson;n=9;p=2;bw=8;nrp=3;ops=P;maxit=3", "algo=lcr;n=22;p=2;sel=cv;hat=1;ladj=1;cn=5", "algo=lcr;n=9;p=3;bw=8;nrp=3;ops=P;ladj=1;cn=3",
        "algo=scal;n=10;p=2;bw=7;sel=aic;hat=1;kernel=1", "algo=scal;n=10;p=2;bw=7;nrp=3;ops=P", "algo=gwss;n=8;p=3;bw=6;mode=cor;first=1", "algo=gwda;n=12;p=2;ng=3;bw=10;wqda=0;hcov=0;hmean=0;hprior=0", "algo=gwr;n=8;p=2;bw=6;dist=geo;layout=geo", "algo=gwr;n=8;p=2;bw=6;dist=mink;kernel=3" };
    auto val = [](const string& s) { return expand(s)[0]; };
    auto add = [&](vector<KV> ks) { string id = "pair " + ks[0].str(); for (size_t i = 1; i < ks.size(); i++) id += " | " + ks[i].str(); cs.push_back({id, [=](Res& r) { explore(ks, th ? 2 : 1, th ? 3000 : 300, r); }, th ? 600 : 120}); };
    for (size_t i = 0; i < one.size(); i++) for (size_t j = i; j < one.size(); j++) for (int omp = 0; omp < 2; omp++) {
        KV a = val(one[i]), b = val(one[j]).with("seed", 5); if (omp) { auto par = [](KV k) { string x = k.s("algo"); return x == "gwpca" || x == "scal" ? k : k.with("par", "omp").with("thr", 2); }; a = par(a); b = par(b); } else { a = a.with("par", "serial"); b = b.with("par", "serial"); }
        add({a, b}); if (i == j) add({a, b, b.with("seed", 6)});
    }
    for (auto& x : one) for (auto& y : one) { KV a = val(x).with("par", "serial"), b = val(y).with("par", "serial").with("seed", 5).with("n", val(y).i("n") + 1); long f = th ? 1000 : 40; cs.push_back({"nested " + a.str() + " | " + b.str(), [=](Res& r) { nested(a, b, f, r); }, th ? 600 : 120}); }
    // several sizes and kernels of one kind
    for (auto& s : one) for (auto& v : vector<string>{"kernel=2", "dist=mink", "n=14", "layout=dup"}) { KV a = val(s).with("par", "serial"), b = a; size_t q = v.find('='); b = b.with(v.substr(0, q), v.substr(q + 1)); if (b.s("algo") == "scal" && v[0] == 'k') continue; add({a, b}); }
});
