// C04/C05: the two search procedures under every sequence of criterion answers (lazily enumerated).
#include "common.h"
#include "ref.h"
#include "gwmodelpp/BandwidthSelector.h"
#include "gwmodelpp/VariableForwardSelector.h"
#include <algorithm>
using std::string; using std::vector; using namespace gwm;
namespace {
struct Oracle {                                   // depth-first enumeration of choices
    vector<int> path, width; size_t pos = 0; uint64_t nodes = 0;
    int choose(int w) { if (pos == path.size()) { path.push_back(0); width.push_back(w); nodes++; } return path[pos++]; }
    bool next() { pos = 0; while (!path.empty()) { if (++path.back() < width.back()) { nodes++; return true; } path.pop_back(); width.pop_back(); } return false; }
};
enum { STOP = -1 };
struct BwMock : IBandwidthSelectable {
    Oracle* o; size_t depth; bool adaptive; int kernel; std::map<double, double> memo; vector<std::pair<double, double>> q; double best = 100, worst = 100; bool any = false; int stopped = 0, afterStop = 0; string bad;
    Status getCriterion(BandwidthWeight* w, double& c) override {
        double x = w->bandwidth(); if (w->adaptive() != adaptive || (int)w->kernel() != kernel) bad = "a candidate with another kernel or bandwidth type is evaluated";
        if (stopped) { afterStop++; c = DBL_MAX; return Status::Terminated; }
        if (q.size() > 400) { bad = "the search does not end"; throw std::logic_error("@endless"); }
        auto it = memo.find(x);
        if (it == memo.end()) {
            double v; int ch = o->path.size() < depth || o->pos < o->path.size() ? o->choose(5) : 2;
            if (ch == 4) { stopped = 1; c = DBL_MAX; q.push_back({x, STOP}); return Status::Terminated; }
            if (ch == 3) v = DBL_MAX; else if (!any) { v = 100; any = true; } else v = ch == 0 ? best - 1.5 : ch == 1 ? best : worst + 1.25;
            if (v < DBL_MAX) { best = std::min(best, v); worst = std::max(worst, v); }
            it = memo.emplace(x, v).first;
        }
        q.push_back({x, it->second}); c = it->second; return Status::Success;
    }
};
void caseBw(bool ad, double lo, double hi, int kernel, size_t depth, Res& r) {
    Oracle o; std::set<string> outcomes;
    do {
        o.pos = 0; BwMock m; m.o = &o; m.depth = depth; m.adaptive = ad; m.kernel = kernel;
        BandwidthWeight init(33.25, ad, (BandwidthWeight::KernelFunctionType)kernel); BandwidthSelector s(&init, lo, hi);
        BandwidthWeight* w = nullptr; bool threw = false; string ex; 
        try { w = s.optimize(&m); } catch (const std::exception& e) { threw = true; ex = e.what(); }
        r.execs++; r.validated++; r.transitions += m.q.size(); r.states += m.q.size() + 1;
        string tr; for (auto& p : m.q) tr += p.second == STOP ? fmt("%.8g:stop ", p.first) : p.second == DBL_MAX ? fmt("%.8g:fail ", p.first) : fmt("%.8g:%.6g ", p.first, p.second);
        auto bad = [&](const char* key, const string& what) { r.bad(key, what + " [answers " + tr.substr(0, 400) + "]"); };
        if (!m.bad.empty()) { bad("search", m.bad); return; }
        for (auto& p : m.q) { if (p.first < lo - 1e-9 * (1 + hi) || p.first > hi + 1e-9 * (1 + hi)) { bad("range", fmt("bandwidth %.12g outside the search range is evaluated", p.first)); return; } if (ad && p.first != std::floor(p.first)) { bad("integral", fmt("adaptive bandwidth %.12g is not a number of neighbours", p.first)); return; } }
        if (m.afterStop > 1) { bad("stop", "the search goes on after it was stopped"); return; }
        if (m.q.size() > 104) { bad("length", "more than 104 evaluations"); return; }
        if (threw) {
            bool fin = false; for (auto& p : m.q) if (p.second != STOP && p.second < DBL_MAX) fin = true;
            if (fin || m.stopped) { bad("throws", "an exception (" + ex + ") although a bandwidth could be evaluated"); return; } outcomes.insert("exception"); continue;
        }
        if (!w) { bad("null", "no bandwidth returned"); return; }
        if (m.stopped) {
            if (w->bandwidth() != 33.25 || w->adaptive() != ad || (int)w->kernel() != kernel) { bad("stopped", "a stopped search does not keep the initial bandwidth"); return; }
            if (w != &init) delete w; outcomes.insert("stopped"); continue;
        }
        double x = w->bandwidth(); if (w->adaptive() != ad || (int)w->kernel() != kernel) { bad("kind", "the chosen bandwidth has another kernel or type"); return; } if (w != &init) delete w;
        double mn = DBL_MAX; for (auto& p : m.memo) mn = std::min(mn, p.second); auto it = m.memo.find(x);
        if (mn == DBL_MAX) { bad("nothing", "a bandwidth is returned although none could be evaluated"); return; }
        if (it == m.memo.end() || it->second > mn) { bad("best", fmt("bandwidth %.10g is chosen, which is not the best one evaluated", x)); return; }
        if (init.bandwidth() != 33.25) { bad("init", "the initial bandwidth object is changed"); return; }
        auto l = s.bandwidthCriterion(); std::map<double, double> fin; for (auto& p : m.memo) if (p.second < DBL_MAX) fin.insert(p);
        if (vector<std::pair<double, double>>(fin.begin(), fin.end()) != l) { bad("list", fmt("the reported list of %d criterion values is not the %d finite evaluations in order of bandwidth", (int)l.size(), (int)fin.size())); return; }
        // conformance with the golden section model on the same answers
        string miss; auto g = ref::golden(lo, hi, ad, [&](double b) { auto z = m.memo.lower_bound(b); if (z != m.memo.begin() && (z == m.memo.end() || z->first - b > b - std::prev(z)->first)) --z; if (std::fabs(z->first - b) > 1e-9 * (1 + hi)) { miss = fmt("golden section evaluates %.10g, the search does not", b); return DBL_MAX; } return z->second; });
        if (!miss.empty()) { bad("golden", miss); return; } if (std::fabs(g.x - x) > 1e-6 * (1 + x) && !(m.memo[x] == mn && g.evals.count(g.x) && g.evals[g.x] == mn)) { bad("golden", fmt("%.10g is chosen, golden section gives %.10g", x, g.x)); return; }
        outcomes.insert(fmt("%.6g", x));
    } while (o.next());
    r.distinct += outcomes.size(); r.samples.push_back(fmt("%s [%g,%g]: %llu answer sequences, %d outcomes", ad ? "adaptive" : "fixed", lo, hi, (unsigned long long)r.execs, (int)outcomes.size()));
}
struct VarMock : IVarialbeSelectable {
    Oracle* o; const vector<double>* al; bool fails; vector<std::pair<vector<size_t>, double>> q; bool stopped = false; int after = 0;
    Status getCriterion(const vector<size_t>& v, double& c) override {
        if (stopped) { after++; return Status::Terminated; }
        int ch = o->choose((int)al->size() + (fails ? 1 : 0)); if (ch == (int)al->size()) { stopped = true; c = DBL_MAX; return Status::Terminated; }
        c = (*al)[ch]; q.push_back({v, c}); return Status::Success;
    }
    vector<size_t> selectedVariables() override { return {}; }
};
string vs(const vector<size_t>& v) { string s; for (size_t i : v) s += fmt("%d,", (int)i); return s; }
void caseVar(const vector<size_t>& vars, double thd, const vector<double>& al, bool fails, Res& r) {
    Oracle o; std::set<string> outs; size_t k = vars.size();
    do {
        o.pos = 0; VarMock m; m.o = &o; m.al = &al; m.fails = fails; VariableForwardSelector s(vars, thd); vector<size_t> sel; string ex;
        try { sel = s.optimize(&m); } catch (const std::exception& e) { ex = e.what(); }
        r.execs++; r.validated++; r.transitions += m.q.size(); r.states += m.q.size() + 1;
        string tr; for (auto& p : m.q) tr += vs(p.first) + fmt(":%.6g ", p.second);
        auto bad = [&](const char* key, const string& what) { r.bad(key, what + " [answers " + tr.substr(0, 400) + "]"); };
        if (!ex.empty()) { bad("throws", "exception " + ex); return; }
        if (m.stopped) { if (m.after) { bad("stop", "the selection goes on after it was stopped"); return; } if (sel != vars) { bad("stopped", "a stopped selection does not keep all variables"); return; } outs.insert("stopped"); continue; }
        if (k == 0) { if (!sel.empty()) { bad("empty", "variables selected from none"); return; } outs.insert("none"); continue; }
        if (m.q.size() != k * (k + 1) / 2) { bad("count", fmt("%d models compared instead of %d", (int)m.q.size(), (int)(k * (k + 1) / 2))); return; }
        auto l = s.indepVarsCriterion(); if (l.size() != m.q.size()) { bad("list", "the reported list does not hold all compared models"); return; }
        vector<size_t> cur, rest = vars; size_t t = 0;
        for (size_t round = 0; round < k; round++) {
            size_t c = k - round; double mn = DBL_MAX; std::set<string> want, have, rep; std::map<string, double> val; vector<size_t> win; 
            for (size_t v : rest) { auto z = cur; z.push_back(v); want.insert(vs(z)); }
            for (size_t i = t; i < t + c; i++) { have.insert(vs(m.q[i].first)); val[vs(m.q[i].first)] = m.q[i].second; mn = std::min(mn, m.q[i].second); rep.insert(vs(l[i].first)); }
            if (have != want) { bad("round", fmt("round %d does not compare the current model plus each remaining variable", (int)round + 1)); return; }
            if (rep != want) { bad("list", fmt("round %d is not reported as compared", (int)round + 1)); return; }
            for (size_t i = t; i < t + c; i++) { if (l[i].second != val[vs(l[i].first)]) { bad("list", "a reported criterion is not the one computed for that model"); return; } if (i > t && l[i].second > l[i - 1].second) { bad("order", "a round is not reported from worst to best"); return; } }
            if (round + 1 < k) { win = m.q[t + c].first; win.pop_back(); } else win = m.q[t].first;
            if (val.find(vs(win)) == val.end() || val[vs(win)] > mn) { bad("best", fmt("round %d is not won by the best model", (int)round + 1)); return; }
            rest.erase(std::find(rest.begin(), rest.end(), win.back())); cur = win; t += c;
        }
        vector<size_t> want; bool found = false; for (size_t i = l.size(); i-- > 1 && !found;) if (l[i - 1].second - l[i].second >= thd) { want = l[i].first; found = true; }
        if (!found) { if (sel != l.back().first && sel != l.front().first) { bad("none", "no improvement reaches the threshold, but neither the first nor the full model is selected: " + vs(sel)); return; } }
        else if (sel != want) { bad("select", "model " + vs(sel) + " selected, the last one improving by the threshold is " + vs(want)); return; }
        outs.insert(vs(sel));
    } while (o.next());
    r.distinct += outs.size(); r.samples.push_back(fmt("%d variables, threshold %g: %llu answer sequences, %d outcomes", (int)k, thd, (unsigned long long)r.execs, (int)outs.size()));
}
}
void addSelections(vector<Case>& cs, bool th, const char* what);
static Reg c04("C04", [](vector<Case>& cs, bool th) {
    size_t D = th ? 12 : 9; addSelections(cs, th, "bw");
    for (int kernel : {0, 1, 2, 3, 4}) {
        for (double lo : {1.0, 5.0, 20.0}) for (double w : {0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 8.0, 13.0, 21.0, 80.0}) cs.push_back({fmt("adaptive;lo=%g;hi=%g;kernel=%d", lo, lo + w, kernel), [=](Res& r) { caseBw(true, lo, lo + w, kernel, kernel == 0 ? D : D - 3, r); }});
        for (auto p : vector<std::pair<double, double>>{{0, 1}, {0, 1e-5}, {0, 100}, {2.5, 1e4}, {3, 3.001}, {0, 1e6}}) cs.push_back({fmt("fixed;lo=%g;hi=%g;kernel=%d", p.first, p.second, kernel), [=](Res& r) { caseBw(false, p.first, p.second, kernel, kernel == 0 ? D : D - 3, r); }});
    }
});
static Reg c05("C05", [](vector<Case>& cs, bool th) {
    addSelections(cs, th, "var");
    auto add = [&](const string& n, vector<size_t> v, vector<double> al, bool f) { for (double t : {0.0, 1.0, 3.0, 7.0, 1e6}) cs.push_back({fmt("%s;k=%d;threshold=%g;answers=%d;fail=%d", n.c_str(), (int)v.size(), t, (int)al.size(), f), [=](Res& r) { caseVar(v, t, al, f, r); }}); };
    vector<double> a5{10, 7, 6, 2, DBL_MAX}, a3{10, 7, 6.5}, a2{5, 2};
    for (int st : {0, 1}) { vector<size_t> v; for (size_t k = 0; k <= 3; k++) { add(fmt("from%d", st), v, a5, true); v.push_back(st + k); } add(fmt("from%d", st), v, a3, st == 1 && th); }
    add("gaps", {2, 5, 9}, a5, true); add("gaps", {4, 1, 3}, a5, false); add("gaps", {9, 4, 6, 1}, a2, true); add("from1", {1, 2, 3, 4, 5}, a2, false);
    if (th) { add("from1", {1, 2, 3, 4}, {10, 7, 6, 2}, false); add("gaps", {9, 4, 6, 1}, a3, true); add("from0", {0, 1, 2, 3, 4}, a2, true); }
});
