// C02: distributed execution gives the serial results for every number of workers and every message
// arrival order, and always terminates.
#include "common.h"
#include "scen.h"
#include "ref.h"
#include <mpi.h>
#include <armadillo>
using std::string; using std::vector;
void mat_mul_mpi(arma::mat& a, arma::mat& b, arma::mat& c, const int ip, const int np, const size_t range);

static string matchStr(const vector<int>& p) { string s; for (size_t i = 0; i < p.size(); i++) if (p[i]) s += fmt("%d:%d ", (int)i, p[i]); return s.empty() ? "default" : s; }
// explores every arrival order with at most D deviations from "lowest rank first"
static void exploreMpi(int np, int D, long cap, Res& r, const std::function<void(int)>& body, const std::function<string()>& judge) {
    bool stop = false; std::set<uint64_t> seen;
    for (int sync = 0; sync < 2 && !stop; sync++) {
        vector<std::pair<vector<int>, int>> st{{{}, 0}}; long n = 0;
        while (!st.empty() && !stop) {
            auto [pre, used] = st.back(); st.pop_back();
            if (n++ >= cap) { r.capped++; break; }
            rt::mpiCfg.np = np; rt::mpiCfg.synchronous = sync; rt::mpiCfg.prefix = pre;
            rt::mpiRun(body); auto pts = rt::mpiStats.points;
            r.execs++; r.states += pts.size() + 1; r.transitions += rt::mpiStats.messages + rt::mpiStats.collectives; r.validated++; r.ctr["schedules"]++; r.ctr["messages"] += rt::mpiStats.messages;
            string how = fmt("workers=%d %s sends, arrivals ", np, sync ? "rendezvous" : "buffered") + matchStr(pre);
            if (rt::mpiStats.deadlock) { r.bad("deadlock", how + ": the workers wait for each other forever"); stop = true; break; }
            if (!rt::mpiStats.error.empty()) { r.bad("protocol", how + ": " + rt::mpiStats.error); stop = true; break; }
            string d = judge(); if (!d.empty()) { r.bad("differs", how + ": " + d); stop = true; break; }
            if (used >= D) continue;
            for (size_t i = pre.size(); i < pts.size(); i++) for (int c = 1; c < pts[i].enabled; c++) { vector<int> q(i + 1, 0); for (size_t j = 0; j < i; j++) q[j] = pts[j].chosen; q[i] = c; st.push_back({q, used + 1}); }
        }
    }
}
static void caseMpi(const KV& k, int np, int D, long cap, Res& r) {
    Env e; Out ref = runScenario(k.with("par", "serial"), e); r.execs++;
    string mode = k.s("mpi", "mpi"); KV km = k.with("par", mode).without("mpi"); if (mode == "mpimp") km = km.with("thr", 2);
    vector<Out> outs; std::set<uint64_t> fps;
    rt::ompCfg = rt::OmpConfig(); rt::ompCfg.maxThreads = 2;
    exploreMpi(np, D, cap, r, [&](int rank) { Env e2; if (rank == 0) outs.assign(np, Out()); Out o = runScenario(km, e2); outs[rank] = o; }, [&]() -> string {
        Out root = outs[0]; Out rr = ref; rr.v.erase("S"); rr.v.erase("C"); root.v.erase("S"); root.v.erase("C"); fps.insert(fingerprint(root));
        string d = diff(rr, root); if (!d.empty()) return "coordinator: " + d;
        if (!ref.threw) for (int i = 1; i < np; i++) {
            if (outs[i].threw) return fmt("worker %d failed: ", i) + outs[i].exc;
            string q = diffMat(ref.v.at("betas"), outs[i].v["betas"]); if (!q.empty()) return fmt("worker %d coefficients ", i) + q;
        } else for (int i = 1; i < np; i++) if (!outs[i].threw) return fmt("worker %d reports success although the calibration failed", i);
        return "";
    });
    r.distinct += fps.size(); r.samples.push_back(k.str() + fmt(" workers=%d -> %llu orders ", np, (unsigned long long)r.execs) + brief(ref));
}
static void caseMul(int n, int np, Res& r) {
    // a: n x n split by rows, b split by rows; c must be the rows of a*b
    arma::mat A(n, n), B(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { A(i, j) = std::sin(1.0 + 3 * i + 7 * j); B(i, j) = std::cos(2.0 + 5 * i - 3 * j); }
    arma::mat C = A * B; size_t range = n / np + (n % np ? 1 : 0); vector<arma::mat> outs;
    exploreMpi(np, 3, 2000, r, [&](int rank) {
        if (rank == 0) outs.assign(np, arma::mat());
        size_t f = std::min((size_t)n, rank * range), t = std::min((size_t)n, f + range);
        arma::mat a = t > f ? arma::mat(A.rows(f, t - 1)) : arma::mat(0, n), b = t > f ? arma::mat(B.rows(f, t - 1)) : arma::mat(0, n), c;
        mat_mul_mpi(a, b, c, rank, np, range); outs[rank] = c;
    }, [&]() -> string {
        for (int i = 0; i < np; i++) { size_t f = std::min((size_t)n, i * range), t = std::min((size_t)n, f + range); if (t > f) { string d = diffMat(C.rows(f, t - 1), outs[i]); if (!d.empty()) return fmt("distributed product, worker %d: ", i) + d; } }
        return "";
    });
    r.distinct++; r.samples.push_back(fmt("distributed product n=%d workers=%d", n, np));
}
static Reg reg("C02", [](vector<Case>& cs, bool th) {
    vector<string> specs = {
        "algo=gwr;n=6|7|8;p=2;bw=6;hat=0|1", "algo=gwr;n=8;p=1;icpt=0;bw=6;hat=1", "algo=gwr;n=9;p=3;bw=0.8;adaptive=0;kernel=0;hat=1",
        "algo=gwr;n=9;p=2;sel=cv|aic;lo=4;hi=9", "algo=gwr;n=8;p=2;sel=cv|aic;adaptive=0", "algo=gwr;n=9;p=4;var=1;thd=1;bw=8", "algo=gwr;n=9;p=3;var=1;thd=3;sel=cv|aic;lo=5;hi=9",
        "algo=gwr;n=7;p=2;bw=6;mpi=mpimp;hat=0|1", "algo=gwr;n=9;p=2;sel=cv|aic;lo=4;hi=9;mpi=mpimp", "algo=gwr;n=8;p=3;var=1;thd=1;bw=8;mpi=mpimp",
        "algo=mgwr;n=6|7|8;p=2;lo=5;hi=6;bw=6;hat=0|1;maxit=3", "algo=mgwr;n=9;p=2;sel=cv|aic;lo=5;hi=9;alow=5;retry=1;maxit=2;hat=1|0", "algo=mgwr;n=8;p=2;sel=cv|aic;adaptive=0;retry=1;maxit=2;hat=1",
        "algo=mgwr;n=9;p=3;lo=6;hi=9;bw=8;bw1=7;bw2=6;maxit=2;hat=1;center=1", "algo=mgwr;n=9;p=2;sel=aic;init=init;lo=5;hi=9;alow=5;bw=7;retry=1;maxit=2",
        "algo=gwr;n=8;p=2;bw=6;layout=dup|line|far;hat=1", "algo=gwr;n=9;p=3;layout=sing;bw=7", "algo=gwr;n=9;p=3;layout=sing;sel=cv|aic;lo=4;hi=9",
    };
    for (auto& s : specs) for (auto& k : expand(s)) for (int np = 1; np <= (th ? 6 : 5); np++) {
        bool selecting = k.has("sel") || k.i("var"); int D = np <= 2 ? 1 : np == 3 ? (selecting ? 1 : 99) : (np == 4 && !selecting ? 2 : 1); if (th) { D++; }
        long cap = th ? 20000 : 300; cs.push_back({k.str() + fmt(";W=%d", np), [=](Res& r) { caseMpi(k, np, D, cap, r); }, th ? 400 : 90});
    }
    for (int n = 1; n <= (th ? 10 : 8); n++) for (int np = 1; np <= (th ? 6 : 4); np++) cs.push_back({fmt("matmul;n=%d;W=%d", n, np), [=](Res& r) { caseMul(n, np, r); }});
    vector<string> wide = {
        "algo=gwr;n=14;p=2|3;" LAY ";" VAL ";bw=11;kernel=0|1|2;hat=0|1", "algo=gwr;n=11;p=2;" LAY ";" VAL ";adaptive=0;bw=70|400;kernel=0|1;hat=1", "algo=gwr;n=40|101;p=2|4;bw=25|60;" K5 ";hat=0|1", "algo=gwr;n=13;p=2;layout=rand|neg|cross|clus;vals=big|neg|pos|zeros;sel=cv|aic;lo=7;hi=12;kernel=0|1", "algo=gwr;n=12;p=4;layout=rand|neg|cross;vals=big|neg|pos;var=1;thd=0.5|5;bw=11;kernel=0|1", "algo=gwr;n=12;p=2;dist=mink;mp=1|3;layout=rand|neg|dup;bw=10;" K5 "", "algo=gwr;n=40;p=2|3;sel=cv|aic;kernel=0|1|2",
        "algo=gwr;n=14;p=2;layout=rand|neg|dup;vals=int|neg|zeros;bw=11;kernel=0|1|2;hat=0|1;mpi=mpimp", "algo=gwr;n=12;p=2;dist=geo;layout=geo;bw=10|30;adaptive=1|0;kernel=0|1|2",
        "algo=mgwr;n=12;p=2|3;layout=rand|neg|cross|clus|iso;vals=int|neg|zeros|big;lo=8;hi=12;bw=9;bw1=11;kernel=0|1;hat=0|1;center=0|1;maxit=3", "algo=mgwr;n=14;p=2;layout=rand|neg|cross;vals=int|neg|big;sel=cv|aic;lo=8;hi=14;alow=8;retry=2;maxit=3;kernel=0|1;hat=0|1", "algo=mgwr;n=11;p=2;adaptive=0;bw=60;bw1=200;layout=rand|neg|cross;sel=no|cv|aic;retry=1;maxit=3;kernel=0|1" };
    for (auto& s : {"algo=gwr;n=6|7|8;p=2;bw=6;hat=0|1", "algo=gwr;n=8;p=2;sel=cv|aic;lo=5;hi=8", "algo=gwr;n=8;p=3;var=1;thd=1;bw=8", "algo=gwr;n=6|7;p=2;bw=6;mpi=mpimp", "algo=mgwr;n=6|7|8;p=2;lo=5;hi=6;bw=6;hat=0|1;maxit=2", "algo=mgwr;n=8;p=2;sel=cv|aic;lo=6;hi=8;alow=6;retry=1;maxit=2;hat=1", "algo=gwr;n=150;p=2|3;bw=60;hat=0|1", "algo=gwr;n=120;p=2;sel=cv|aic"}) for (auto& k : expand(s)) for (int np : {8, 9, 10, 13}) cs.push_back({"many;" + k.str() + fmt(";W=%d", np), [=](Res& r) { caseMpi(k, np, th ? 1 : 0, th ? 500 : 10, r); }, 90});
    std::set<string> seen; size_t ord = 0;
    for (auto& s : wide) for (auto& k : expand(s)) { if (!seen.insert(k.str()).second) continue; ord++; for (int np = 2; np <= 7; np++) if (th || np == 2 + (int)(ord % 3) || np == 5 + (int)(ord % 3)) cs.push_back({"wide;" + k.str() + fmt(";W=%d", np), [=](Res& r) { if (ref::wellPosed(k)) caseMpi(k, np, 0, 10, r); else r.ctr["no_verdict"]++; }, 60}); }
});
