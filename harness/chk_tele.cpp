// C23: what is reported to the caller's monitor describes the calculation.
#include "common.h"
#include "scen.h"
#include <algorithm>
#include <cstring>
using std::string; using std::vector; using namespace arma;
namespace {
Out go(const vector<KV>& h, TeleState* t, int perm = 0) {
    int thr = 1; bool omp = false; for (auto& k : h) { thr = std::max(thr, k.i("thr", 1)); omp |= k.s("par") == "omp"; }
    Env e; e.tele = t; rt::ompCfg = rt::OmpConfig(); rt::ompCfg.maxThreads = thr; if (perm) { rt::ompCfg.orderRegion = -2; rt::ompCfg.orderPerm = perm; }
    rt::lapack = rt::LapackCfg(); return runHistory(h, e, omp);
}
bool starts(const string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
vector<string> split(const string& s, char c) { vector<string> v; string w; for (char x : s) if (x == c) { v.push_back(w); w.clear(); } else w += x; v.push_back(w); return v; }
// the reports between two stage messages
struct Stage { string name; vector<std::pair<int, int>> counts; vector<double> pct; vector<string> info; };
vector<Stage> stages(const TeleState& t) { vector<Stage> v(1); for (auto& e : t.events) {
    if (e.kind == 0) { if (starts(e.msg, "#stage ")) { v.push_back({}); v.back().name = e.msg.substr(7); } else v.back().info.push_back(e.msg); }
    else if (e.kind == 1) v.back().counts.push_back({(int)e.a, (int)e.b}); else if (e.kind == 2) v.back().pct.push_back(e.a); } return v; }
struct Ann { vector<double> key; string label; double val; };
bool announcements(const vector<Stage>& st, const char* tag, string& header, vector<Ann>& out) { for (auto& s : st) for (auto& m : s.info) if (starts(m, tag)) { auto f = split(m.substr(strlen(tag)), ','); if (f.size() < 2) return false;
    if (f.back() == "criterion") { header = m.substr(strlen(tag)); continue; } Ann a; for (size_t i = 0; i + 1 < f.size(); i++) a.key.push_back(atof(f[i].c_str())); a.label = f[0]; a.val = atof(f.back().c_str()); out.push_back(a); } return true; }
bool near(double a, double b) { return std::fabs(a - b) <= 2e-6 + 1e-9 * std::fabs(b); }
void judgeOne(const KV& k, const Out& o, const TeleState& t, bool serial, bool isPred, std::function<void(const char*, const string&)> bad) {
    string a = k.s("algo"); auto st = stages(t);
    for (auto& s : st) {
        for (auto& c : s.counts) if (c.second < 1 || c.first < 0 || c.first > c.second) { bad("count", fmt("progress %d of %d is reported in stage \"%s\"", c.first, c.second, s.name.c_str())); return; }
        for (double p : s.pct) if (!(p >= 0 && p <= 1.00001)) { bad("percent", fmt("progress %.12g is reported in stage \"%s\"", p, s.name.c_str())); return; }
        // every pass takes each value up to the total once (scalable models count two half passes)
        std::map<int, std::map<int, int>> by; for (auto& c : s.counts) by[c.second][c.first]++;
        if (k.i("var") && s.name.find("ariable") != string::npos) { int p = k.i("p"), K = k.i("icpt", 1) ? p - 1 : p; for (auto& b : by) if (b.first != K * (K + 1) / 2) bad("count", fmt("a total of %d variable combinations is announced for %d variables", b.first, K));
            if (s.counts.size() > 0) for (size_t i = 0; i < s.counts.size(); i++) if (s.counts[i].first != (int)i + 1) bad("count", "variable combinations are not counted one by one"); continue; }
        if (a == "scal") for (auto& b : by) { auto& m = b.second; bool half = m.count(0); int T = b.first; if (half) { for (int v = 0; v <= T; v++) if (m[v] != (v == 0 || v == T ? 1 : 2) * m[T]) bad("pass", fmt("a pass of %d local models does not report every step", T)); } else for (int v = 1; v <= T; v++) if (m[v] != m[T]) bad("pass", fmt("a pass of %d local models does not report every step", T)); }
        else for (auto& b : by) for (int v = 0; v <= b.first; v++) if (b.second[v] != (v ? b.second[b.first] : 0)) { bad("pass", fmt("in stage \"%s\" step %d of %d is reported %d times, the last step %d times", s.name.c_str(), v, b.first, b.second[v], b.second[b.first])); return; }
        if (serial) for (size_t i = 1; i < s.counts.size(); i++) { auto &p = s.counts[i - 1], &c = s.counts[i]; bool next = c.second == p.second && (c.first == p.first + 1 || (a == "scal" && c.first == p.first)), fresh = p.first == p.second && c.first <= 1; if (!next && !fresh) { bad("order", fmt("in stage \"%s\" progress goes from %d/%d to %d/%d", s.name.c_str(), p.first, p.second, c.first, c.second)); return; } }
    }
    // one report per local model at least
    int n = k.i("n"), want = isPred ? k.i("nrp", 4) : n; bool full = false; for (auto& s : st) for (auto& c : s.counts) if (c.second == want && c.first == want) full = true;
    if (!full && a != "gwda") bad("finish", fmt("the end of a pass over %d local models is never reported", want));
    if (!isPred && a != "gwda") { if (t.events.empty() || t.events[0].kind == 1 || t.events[0].kind == 2) bad("stage", "progress is reported before any stage is announced"); if (st.size() < 3) bad("stage", "fewer than two stages are announced"); }
    for (auto& e : t.events) if (e.kind == 0 && (e.level < 4 || e.msg.empty())) { bad("error", "an error is reported although nothing failed: " + e.msg); return; }
    // searches announce what they evaluate
    string hd; vector<Ann> an;
    if (!announcements(st, "#bandwidth-criterion ", hd, an)) { bad("announce", "a bandwidth announcement is incomplete"); return; }
    bool sel = k.s("sel", "no") != "no" && a != "scal";
    if (sel && a != "mgwr" && hd.empty() && !isPred) bad("announce", "the bandwidth search is not announced");
    if (!sel && !an.empty()) bad("announce", "bandwidths are announced although none is searched");
    if (sel && a != "gwdr" && a != "mgwr" && !hd.empty() && hd != (k.i("adaptive", 1) ? "adaptive,criterion" : "fixed,criterion")) bad("announce", "the bandwidth search is announced as " + hd);
    if (sel && o.v.count("bwlist") && (a == "gwr" || a == "robust")) {
        const mat& L = o.v.at("bwlist"); bool ad = k.i("adaptive", 1); auto same = [&](uword i, const Ann& q) { return near(q.key[0], ad ? std::floor(L(i, 0)) : L(i, 0)) && near(q.val, L(i, 1)); }; auto real = [&](uword i) { return std::isfinite(L(i, 1)) && L(i, 1) < 1e300; };
        for (uword i = 0; i < L.n_rows; i++) if (real(i) && std::none_of(an.begin(), an.end(), [&](const Ann& q) { return same(i, q); })) { bad("announce", fmt("bandwidth %g with criterion %g is listed by the search but was not announced", L(i, 0), L(i, 1))); break; }
        for (auto& q : an) { bool any = false; for (uword i = 0; i < L.n_rows; i++) any |= real(i) && same(i, q); if (!any) { bad("announce", fmt("bandwidth %g with criterion %g was announced but is not listed by the search", q.key[0], q.val)); break; } }
    }
    if (sel && a == "gwdr" && !isPred) { if (an.empty()) bad("announce", "no pair of bandwidths is announced"); for (auto& q : an) if (q.key.size() != o.v.at("bw").n_elem) { bad("announce", "not every bandwidth is announced"); break; } }
    if (k.i("var")) { vector<Ann> va; string vh; if (!announcements(st, "#variable-criterion ", vh, va)) bad("announce", "a variable announcement is incomplete");
        if (o.v.count("varlist")) { const mat& L = o.v.at("varlist"); if (L.n_rows != va.size()) bad("announce", fmt("%d variable combinations are announced, the search lists %d", (int)va.size(), (int)L.n_rows)); else for (uword i = 0; i < L.n_rows; i++) { bool any = false; for (auto& q : va) { string lab; for (auto& z : split(q.label, '+')) lab += z; any |= atof(lab.c_str()) == L(i, 0) && near(q.val, L(i, 1)); } if (!any) { bad("announce", fmt("combination %g with criterion %g is listed by the search but was not announced", L(i, 0), L(i, 1))); break; } } } }
    if (a == "mgwr" && o.v.count("bw") && !isPred) { const mat& w = o.v.at("bw"); std::map<int, double> lastBw; for (auto& s : st) for (auto& m : s.info) for (const char* tag : {"#initial-bandwidth ", "#back-fitting #variable-bandwidth-selection "}) if (starts(m, tag)) { auto f = split(m.substr(strlen(tag)), ','); if (f.size() == 2) lastBw[atoi(f[0].c_str())] = atof(f[1].c_str()); else if (f.size() > 2) lastBw[atoi(f[0].c_str())] = atof(f[2].c_str()); }
        for (auto& b : lastBw) if (b.first < 0 || b.first >= (int)w.n_elem || !near(b.second, w(b.first))) { bad("announce", fmt("the last bandwidth announced for variable %d is %g, the model uses another one", b.first, b.second)); break; } if (sel && k.s("init") == "init" && lastBw.size() != w.n_elem) bad("announce", "the bandwidths of some variables are never announced"); }
    if (a == "gtwr" && k.i("autolam")) { string lh; vector<Ann> la; if (!announcements(st, "#lambda-optimization ", lh, la) || la.size() < 4) bad("announce", "the search for the space-time mixing is not announced"); for (auto& q : la) if (!(q.key[0] >= 0 && q.key[0] <= 1)) bad("announce", "a mixing outside [0,1] is announced"); }
}
string shape(const TeleState& t) { string s; for (auto& g : stages(t)) { s += "<" + g.name + ">"; auto c = g.counts; std::sort(c.begin(), c.end()); for (auto& x : c) s += fmt("%d/%d ", x.first, x.second); s += fmt("p%d i%d ", (int)g.pct.size(), (int)g.info.size()); } return s; }
void caseTele(const KV& k, Res& r) {
    string a = k.s("algo"); bool isPred = k.s("ops", "F") == "P", omp = a != "scal" && a != "gwpca"; KV ser = k.with("par", "serial");
    TeleState t; t.record = true; Out o = go({ser}, &t); r.execs++; r.states++; r.transitions += t.events.size(); r.validated++;
    bool stop = false; string where; auto bad = [&](const char* key, const string& w) { if (!stop) r.bad(key, where + w); stop = true; };
    string lay = k.s("layout"); bool fails = o.threw; if (fails && lay != "zero") { r.bad("harness", o.exc); return; }
    if (fails) { bool told = false; for (auto& e : t.events) if (e.kind == 0 && e.level <= 3 && !e.msg.empty()) told = true; if (!told && !k.i("quiet")) bad("silent", "the calculation fails (" + o.exc + ") without reporting an error"); }
    else judgeOne(ser, o, t, true, isPred, bad);
    if (stop) return;
    // watching does not change the result
    Out u = go({ser}, nullptr); r.execs++; string d = diff(o, u, 0); if (!d.empty()) { bad("observer", "without a monitor: " + d); return; }
    std::set<string> shapes{shape(t)};
    // a second run of the same object reports the same again
    if (!fails) { TeleState t2; t2.record = true; Out o2 = go({ser, ser}, &t2); r.execs++; r.states++; r.transitions += t2.events.size(); r.validated++; where = "run twice: ";
        if (t2.events.size() != 2 * t.events.size()) bad("repeat", fmt("%d reports instead of %d", (int)t2.events.size(), 2 * (int)t.events.size()));
        else for (size_t i = 0; i < t2.events.size() && !stop; i++) { auto &x = t2.events[i], &y = t.events[i % t.events.size()]; if (x.kind != y.kind || (x.kind == 1 && (x.a != y.a || x.b != y.b)) || (x.kind == 0 && x.msg != y.msg)) bad("repeat", fmt("report %d is %g/%g %s, in a single run %g/%g %s", (int)i, x.a, x.b, x.msg.c_str(), y.a, y.b, y.msg.c_str())); } }
    if (!omp) { r.distinct += shapes.size(); r.samples.push_back(k.str() + fmt(": %d reports", (int)t.events.size())); return; }
    for (int T : {1, 2, 3, k.i("n") + 1}) for (int perm = 0; perm < (T > 1 ? (T < 4 ? 2 * T : 2) : 1) && !stop; perm++) {
        KV q = k.with("par", "omp").with("thr", T); TeleState tt; tt.record = true; Out oo = go({q}, &tt, perm); r.execs++; r.states++; r.transitions += tt.events.size(); r.validated++; where = fmt("%d threads, order %d: ", T, perm);
        if (oo.threw != fails) { bad("outcome", "outcome differs: " + oo.exc); continue; }
        if (fails) { bool told = false; for (auto& e : tt.events) if (e.kind == 0 && e.level <= 3 && !e.msg.empty()) told = true; if (!told && !k.i("quiet")) bad("silent", "the calculation fails (" + oo.exc + ") without reporting an error"); continue; }
        judgeOne(q, oo, tt, false, isPred, bad); if (!stop && shape(tt) != shape(t)) bad("schedule", "other reports than the serial calculation: " + shape(tt).substr(0, 200) + " instead of " + shape(t).substr(0, 200)); shapes.insert(shape(tt));
    }
    r.distinct += shapes.size(); r.samples.push_back(k.str() + fmt(": %d reports, same for all thread orders", (int)t.events.size()));
}
}
static Reg c23("C23", [](vector<Case>& cs, bool th) {
    vector<string> f = {
        "algo=gwr;n=8|10;p=1|2|3;bw=6|60;adaptive=1|0;hat=0|1", "algo=gwr;n=8|10;p=2;sel=cv|aic;lo=5;hi=8;hat=0|1;kernel=0|2", "algo=gwr;n=9;p=2;adaptive=0;sel=cv|aic;hat=1;kernel=0", "algo=gwr;n=10;p=2|3|4;bw=9;var=1;thd=0|1|50;icpt=1|0", "algo=gwr;n=10;p=3;bw=9;var=1;thd=1;sel=cv|aic;lo=6;hi=9", "algo=gwr;n=8;p=2;bw=6;nrp=1|3|9;ops=P",
        "algo=robust;n=9|12;p=2;layout=outlier;bw=8;filt=0|1", "algo=robust;n=9;p=2;layout=outlier;bw=8;filt=0|1;sel=cv|aic;adaptive=0", "algo=robust;n=10;p=3;layout=outlier;bw=9;filt=0|1;var=1;thd=1",
        "algo=gtwr;n=8|10;p=2;bw=7;lambda=0.4;hat=0|1", "algo=gtwr;n=8;p=2;adaptive=0;sel=cv|aic;lambda=0.4", "algo=gtwr;n=8;p=2;bw=7;lambda=0.4;autolam=1",
        "algo=gwdr;n=8;p=2;bw=8;bw2=8;hat=0|1;dims=2|3", "algo=gwdr;n=12;p=2;bw=10;bw2=10;sel=cv|aic;maxit=60;bweps=0.1", "algo=gwdr;n=9|10;p=3|4;bw=9;bw2=9;var=1;thd=1;icpt=1|0",
        "algo=mgwr;n=8|10;p=2;lo=5;hi=8;bw=7;hat=0|1;maxit=1|3", "algo=mgwr;n=8;p=2;sel=cv|aic;lo=6;hi=8;alow=6;retry=1|2;maxit=2|4;init=spec|init", 
        "algo=ggwr;fam=poisson|binomial;n=10;p=2;bw=9;hat=0|1;maxit=1|3", "algo=ggwr;fam=poisson|binomial;n=10;p=2;adaptive=0;sel=cv|aic;maxit=2", "algo=ggwr;fam=poisson|binomial;n=10;p=2;bw=9;nrp=3;ops=P;maxit=3",
        "algo=lcr;n=8|10;p=2;bw=7;hat=0|1;ladj=0|1;cn=3", "algo=lcr;n=8;p=2;adaptive=0;sel=cv", "algo=lcr;n=8;p=2;bw=7;nrp=1|3|9;ops=P",
        "algo=scal;n=10|12;p=2;bw=8;sel=cv|aic;poly=2|4", "algo=scal;n=12;p=2;bw=8;nrp=3;ops=P",
        "algo=gwr;n=30|101;p=2|3;bw=25;hat=0|1;kernel=0|2|4", "algo=gwr;n=10;p=5;bw=10;var=1;thd=0.1|3;adaptive=1|0", "algo=gwr;n=12;p=2;layout=grid|line|dup|far|neg|cross|clus|iso;vals=int|neg|rep;bw=10;hat=0|1", "algo=gwr;n=41|60;p=2;sel=cv|aic;kernel=0|2", "algo=gwr;n=12;p=2;bw=10;nrp=40|101;ops=P", "algo=robust;n=14|40;p=2;layout=outlier|outlier1|neg;bw=13;filt=0|1;kernel=0|1|2", "algo=gtwr;n=14|40;p=2;tm=same|frac|seq|neg;bw=13;lambda=0.3|0.8;hat=0|1", "algo=gtwr;n=30;p=2;sel=cv|aic;lambda=0.4", "algo=gwdr;n=14|40;p=2;dims=1|2|3;adaptive=1|0;bw=13;bw2=14;kernel=0;hat=0|1", "algo=gwdr;n=13;p=2;dims=1;sel=cv|aic;bw=10;bw2=11;maxit=150;bwstep=0.3;bweps=0.1;kernel=0", "algo=mgwr;n=14|30;p=2|3;lo=9;hi=14;bw=11;bw1=12;center=0|1;hat=0|1;maxit=1|2|5;crit=cvr|dcvr", "algo=mgwr;n=14;p=3;sel=cv|aic;lo=9;hi=14;alow=9;retry=2;maxit=4;hat=0|1", "algo=ggwr;fam=poisson|binomial;n=30;p=2|3;bw=25;hat=0|1;maxit=1|2|10", "algo=ggwr;fam=poisson|binomial;n=30;p=2;sel=cv|aic;maxit=3", "algo=lcr;n=30;p=2|3;bw=25;lam=0|0.2;ladj=0|1;cn=4;hat=0|1", "algo=lcr;n=30;p=2;sel=cv;ladj=0|1;cn=4", "algo=scal;n=40;p=2|3;bw=25;kernel=0|1;sel=cv|aic",
        "algo=gwss;n=40;p=2|3;bw=30;mode=avg|cor;quant=0|1;first=0|1", "algo=gwpca;n=40;p=4;bw=30;k=1|3", "algo=gwda;n=30|41;p=2|3;ng=2|3;bw=28;wqda=0|1;hcov=0|1", 
        "algo=gwss;n=8|10;p=2|3;bw=6;mode=avg|cor;quant=0|1", "algo=gwpca;n=8|10;p=3;bw=7;k=1|2", "algo=gwda;n=14;p=2;ng=2;bw=12",
        "algo=gwr|gtwr|gwdr|robust;n=10;p=3;layout=zero;bw=8;bw2=8;lambda=0.4;lo=5;hi=8;hat=0|1", "algo=mgwr|lcr;n=10;p=3;layout=zero;bw=8;lo=5;hi=8;quiet=1", "algo=ggwr;fam=poisson|binomial;n=10;p=3;layout=zero;bw=8;quiet=1", };
    (void)th; for (auto& s : f) for (auto& k : expand(s)) cs.push_back({k.str(), [=](Res& r) { caseTele(k, r); }, 60});
});
