// Shared by all explorations: scenario keys, data sets, observable results, case runner.
#pragma once
#include "rt.h"
#include <armadillo>
#include <map>
#include <string>
#include <vector>
#include <functional>
#include <memory>
#include <set>
#include <cmath>
#include "gwmodelpp/Logger.h"
#include "gwmodelpp/Status.h"

typedef std::vector<double> V;

// ---- keys: "algo=gwr;n=9;..." -----------------------------------------------------------------
struct KV {
    std::map<std::string, std::string> m;
    KV() {}
    KV(const std::string& s);
    std::string str() const;
    bool has(const std::string& k) const { return m.count(k) > 0; }
    std::string s(const std::string& k, const std::string& d = "") const { auto i = m.find(k); return i == m.end() ? d : i->second; }
    int i(const std::string& k, int d = 0) const { auto i = m.find(k); return i == m.end() ? d : std::stoi(i->second); }
    double d(const std::string& k, double d = 0) const { auto i = m.find(k); return i == m.end() ? d : std::stod(i->second); }
    KV with(const std::string& k, const std::string& v) const { KV c = *this; c.m[k] = v; return c; }
    KV with(const std::string& k, int v) const { return with(k, std::to_string(v)); }
    KV without(const std::string& k) const { KV c = *this; c.m.erase(k); return c; }
};
// cartesian product: "algo=gwr;n=7|9;hat=0|1" -> all keys
std::vector<KV> expand(const std::string& spec);

// ---- data --------------------------------------------------------------------------------------
struct Data {
    arma::mat coords, x, pred; arma::vec y, times; std::vector<std::string> groups;
};
inline double probeFactor(int q, int j) { static const double f[5] = {1, 0.85, 1.3, 2, 1.1}; return q == 4 && j ? 0.9 + 0.2 * j : f[q]; }
Data makeData(const KV& k);       // n, p, seed, layout, fam, nrp, perm

// families of data the wide tables run through
#define K5 "kernel=0|1|2|3|4"
#define LAY "layout=rand|grid|line|dup|far|neg|cross|clus|iso|iso0|col"
#define VAL "vals=int|dummy|big|tiny|neg|pos|zeros|rep|same2"

// ---- results -----------------------------------------------------------------------------------
struct Out {
    std::map<std::string, arma::mat> v;
    std::string exc;              // what() of the exception that left the call, empty if none
    bool threw = false;
    void add(const std::string& n, const arma::mat& a) { v[n] = a; }
    void add(const std::string& n, double a) { arma::mat q(1, 1); q(0, 0) = a; v[n] = q; }
    void add(const std::string& n, const arma::cube& c) { arma::mat q(c.n_elem, 1); for (arma::uword i = 0; i < c.n_elem; i++) q(i) = c(i); v[n] = q; }
};
// "" if equal within tolerance; otherwise a description
std::string diff(const Out& ref, const Out& got, double rtol = 1e-6, const std::set<std::string>& only = {});
std::string diffMat(const arma::mat& ref, const arma::mat& got, double rtol = 1e-6);
uint64_t fingerprint(const Out& o);   // rounded to 6 digits
std::string brief(const Out& o);

// ---- environment -------------------------------------------------------------------------------
struct Event { int kind; double a, b; std::string msg; int level; };   // 0 print 1 progress(c,t) 2 progress(pct) 3 stop-poll
struct TeleState {
    long polls = 0; bool stopped = false; long stopAt = -1; bool sticky = true; bool record = false;
    long pollsAfterStop = 0; long infoAfterStop = 0; long errors = 0; std::vector<Event> events; std::vector<std::string> bad;
    long solvesAtStop = -1; long distAtStop = 0;
    long calls = 0; std::function<void(long)> onCall;   // run at the start of every call of the monitor
};
std::unique_ptr<gwm::ITelegram> makeTele(TeleState* st);

KV perVar(const KV& k, int j);             // the settings of one term of a multiscale model
double labelCode(const std::string& s);   // a number for a group name
struct Env { TeleState* tele = nullptr; };
// run one scenario on the real library
Out runScenario(const KV& k, Env& env);
// run under the controlled OpenMP runtime (conflict recording etc. from rt::ompCfg); resets stats
Out runControlled(const KV& k, Env& env);

// ---- cases ---------------------------------------------------------------------------------------
struct Violation { std::string key, what; };
struct Res {
    uint64_t execs = 0, states = 0, transitions = 0, validated = 0, distinct = 0, capped = 0;
    std::vector<Violation> viol; std::vector<std::string> samples; std::vector<std::string> notes;
    std::map<std::string, uint64_t> ctr;
    void bad(const std::string& key, const std::string& what) { viol.push_back({key, what}); }
};
struct Case { std::string id; std::function<void(Res&)> fn; int limit = 120; };
typedef std::function<void(std::vector<Case>&, bool thorough)> Enumerator;
std::map<std::string, Enumerator>& registry();
struct Reg { Reg(const char* id, Enumerator e) { registry()[id] = e; } };

std::string fmt(const char* f, ...);
uint64_t hash64(const std::string& s);
