#include "common.h"
#include "scen.h"
#include <cstdarg>
#include <cstdio>
#include <sstream>
#include <algorithm>
using namespace arma;
std::map<std::string, Enumerator>& registry() { static std::map<std::string, Enumerator> r; return r; }
std::string fmt(const char* f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
uint64_t hash64(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> o; std::string t; std::stringstream ss(s); while (std::getline(ss, t, c)) o.push_back(t); return o; }
KV::KV(const std::string& s) { for (auto& p : split(s, ';')) { auto e = p.find('='); if (e != std::string::npos) m[p.substr(0, e)] = p.substr(e + 1); } }
std::string KV::str() const { std::string o; for (auto& p : m) o += (o.empty() ? "" : ";") + p.first + "=" + p.second; return o; }
std::vector<KV> expand(const std::string& spec) {
    std::vector<KV> out{KV()};
    for (auto& p : split(spec, ';')) {
        auto e = p.find('='); if (e == std::string::npos) continue;
        std::string k = p.substr(0, e); auto vals = split(p.substr(e + 1), '|');
        std::vector<KV> nx; for (auto& o : out) for (auto& v : vals) nx.push_back(o.with(k, v));
        out.swap(nx);
    }
    return out;
}
struct Lcg { uint64_t s; explicit Lcg(uint64_t x) : s(x * 6364136223846793005ull + 1442695040888963407ull) { u(); u(); } double u() { s = s * 6364136223846793005ull + 1442695040888963407ull; return ((s >> 11) & ((1ull << 52) - 1)) / (double)(1ull << 52); } double g() { double a = 0; for (int i = 0; i < 6; i++) a += u(); return (a - 3) / std::sqrt(0.5); } };
double labelCode(const std::string& s) { if (s.empty()) return -1; uint32_t h = 2166136261u; for (unsigned char c : s) h = (h ^ c) * 16777619u; return h; }
KV perVar(const KV& k, int j) {
    KV q = k; if (k.i("kmix")) q = q.with("kernel", (k.i("kernel", 0) + j) % 5);
    if (k.i("dmix") && j % 2) q = q.with("dist", "mink").with("mp", 1).with("mth", 0);
    if (k.i("amix") && j % 2) q = q.with("adaptive", 1 - k.i("adaptive", 1));
    if (k.i("smix") && j % 2) q = q.with("sel", k.s("sel") == "cv" ? "aic" : "cv");
    if (k.i("tmix")) q = q.with("bwthr", j % 3 == 0 ? "0.5" : j % 3 == 1 ? "30" : "2");
    if (k.i("cmix") && j % 2) q = q.with("center", 1 - k.i("center", 0));
    return q;
}
Data makeData(const KV& k) {
    int n = k.i("n", 8), p = k.i("p", 2), nrp = k.i("nrp", 4); std::string lay = k.s("layout", "rand"), fam = k.s("fam", "gauss");
    bool icpt = k.i("icpt", 1) != 0;
    Lcg g((uint64_t)k.i("seed", 1) * 7919 + 13);
    Data d; d.coords.set_size(n, 2);
    for (int i = 0; i < n; i++) {
        double a = g.u() * 100, b = g.u() * 60;
        if (lay == "grid") { a = (i % 4) * 10; b = (i / 4) * 10; }
        else if (lay == "line") { a = i * 7 + g.u(); b = 5; }
        else if (lay == "dup" && i % 3 == 2) { a = d.coords(i - 1, 0); b = d.coords(i - 1, 1); }
        else if (lay == "geo") { a = a * 0.1 - 5; b = b * 0.1 + 30; }
        else if (lay == "far") { a += 5e5; b += 1.8e5; }
        else if (lay == "neg") { a -= 150; b -= 130; }
        else if (lay == "cross") { a -= 50; b -= 30; }
        else if (lay == "col") { b = a; a = -3; }
        else if (lay == "clus") { if (i % 2) { a += 900; b -= 700; } }
        else if (lay == "iso") { if (i == n - 1) { a += 400; b += 300; } }
        else if (lay == "iso0") { if (i == 0) { a -= 400; b -= 300; } }
        d.coords(i, 0) = a; d.coords(i, 1) = b;
    }
    // p covariates in total, the first one being the constant when there is an intercept
    d.x.set_size(n, p);
    for (int j = 0; j < p; j++) for (int i = 0; i < n; i++) d.x(i, j) = (j == 0 && icpt) ? 1.0 : g.g() * (1 + 0.5 * j) + (j % 2 ? 2.0 : -1.0);
    if (lay == "collin" && p >= 3) for (int i = 0; i < n; i++) d.x(i, p - 1) = d.x(i, p - 2) * 0.98 + 0.05 * g.g();
    if (lay == "sing" && p >= 3) for (int i = 0; i < n; i++) d.x(i, p - 1) = d.x(i, p - 2);
    if (lay == "zero") for (int i = 0; i < n; i++) d.x(i, p - 1) = 0;
    d.y.set_size(n); d.times.set_size(n);
    for (int i = 0; i < n; i++) {
        double eta = 0; for (int j = 0; j < p; j++) eta += d.x(i, j) * ((j % 2 ? -1.3 : 0.9) + 0.01 * (d.coords(i, 0) - d.coords(0, 0)) * (j + 1));
        double e = g.g();
        if (fam == "poisson") d.y(i) = std::floor(std::exp(std::min(3.0, 0.25 * eta / p + 1)) + g.u() * 3);
        else if (fam == "binomial") d.y(i) = (0.25 * eta / p + 1.2 * e > 0) ? 1 : 0;
        else d.y(i) = eta + 0.8 * e + (lay == "outlier" && i % 5 == 2 ? 25.0 : lay == "outlier1" && i == n / 2 ? 60.0 : 0.0);
        d.times(i) = std::floor(g.u() * 5) + 1;
        d.groups.push_back(std::string(1, char('A' + (i + (g.u() < 0.3 ? 1 : 0)) % k.i("ng", 2))));
    }
    if (k.s("gr") == "alike") { const char* names[] = {"A1", "A2", "A10", "a1", "A11", "A12", "B1"}; for (int i = 0; i < n; i++) d.groups[i] = names[(d.groups[i][0] - 'A') % 7]; }
    std::string tm = k.s("tm"), gr = k.s("gr"), vals = k.s("vals");
    if (!tm.empty()) for (int i = 0; i < n; i++) d.times(i) = tm == "same" ? 3 : tm == "frac" ? g.u() * 5 : tm == "seq" ? i : tm == "rev" ? n - i : tm == "neg" ? d.times(i) - 4 : tm == "big" ? d.times(i) * 365 + 20000 : d.times(i);
    if (!gr.empty() && gr != "alike") for (int i = 0; i < n; i++) { int q = d.groups[i][0] - 'A', ng = k.i("ng", 2); if (gr == "unbal") q = i % 5 == 3 ? 1 % ng : i % 5 == 1 && ng > 2 ? 2 : 0; if (gr == "late") q = i >= n - 4 ? ng - 1 : i % std::max(1, ng - 1); const char* names[] = {"west", "East", "b", "north east", "A1"}; d.groups[i] = gr == "names" ? names[q % 5] : std::string(1, char((gr == "rev" ? 'Z' - q : 'A' + q))); }
    if (!vals.empty()) {
        int f = icpt ? 1 : 0; bool gauss = fam == "gauss";
        if (vals == "int") { for (int j = f; j < p; j++) for (int i = 0; i < n; i++) d.x(i, j) = std::round(d.x(i, j)); if (gauss) for (int i = 0; i < n; i++) d.y(i) = std::round(d.y(i)); }
        if (vals == "dummy" && p > f) for (int i = 0; i < n; i++) d.x(i, p - 1) = d.x(i, p - 1) > (p % 2 ? -1 : 2) ? 1 : 0;
        if (vals == "big") { for (int j = f; j < p; j++) d.x.col(j) *= 300; if (gauss) d.y *= 1e4; else if (fam == "poisson") d.y *= 20; }
        if (vals == "tiny") { for (int j = f; j < p; j++) d.x.col(j) *= 0.02; if (gauss) d.y *= 1e-3; else if (fam == "poisson") for (int i = 0; i < n; i++) d.y(i) = std::floor(d.y(i) / 3); }
        if (vals == "steep" && p > f) for (int i = 0; i < n; i++) d.y(i) = std::floor(std::exp(1.2 * (d.x(i, f) - 2) + 0.4 * std::sin(5.0 * i)));
        if (vals == "small") { for (int j = f; j < p; j++) d.x.col(j) *= 0.12; if (gauss) d.y *= 0.05; }
        if (vals == "neg") { for (int j = f; j < p; j++) for (int i = 0; i < n; i++) d.x(i, j) = -std::fabs(d.x(i, j)) - 0.1 * j; if (gauss) for (int i = 0; i < n; i++) d.y(i) = -std::fabs(d.y(i)) - 10; }
        if (vals == "pos") { for (int j = f; j < p; j++) for (int i = 0; i < n; i++) d.x(i, j) = std::fabs(d.x(i, j)) + 20; if (gauss) for (int i = 0; i < n; i++) d.y(i) = std::fabs(d.y(i)) + 100; }
        if (vals == "zeros") { for (int j = f; j < p; j++) for (int i = j; i < n; i += 3) d.x(i, j) = 0; if (gauss) for (int i = 1; i < n; i += 4) d.y(i) = 0; }
        if (vals == "rep") for (int i = n - n / 3; i < n; i++) { int q = i - (n - n / 3); d.coords.row(i) = mat(d.coords.row(q)); d.x.row(i) = mat(d.x.row(q)); d.y(i) = d.y(q); d.times(i) = d.times(q); d.groups[i] = d.groups[q]; }
        if (vals == "same2") for (int i = 1; i < n; i += 2) { d.coords.row(i) = mat(d.coords.row(i - 1)); d.times(i) = d.times(i - 1); }
    }
    d.pred.set_size(nrp, 2);
    for (int i = 0; i < nrp; i++) { double a = g.u() * 100, b = g.u() * 60; if (lay == "geo") { a = a * 0.1 - 5; b = b * 0.1 + 30; } else if (lay == "far") { a += 5e5; b += 1.8e5; } else if (lay == "neg") { a -= 150; b -= 130; } else if (lay == "cross") { a -= 50; b -= 30; } else if (lay == "col") { b = a; a = -3; } else if (lay == "clus") { if (i % 2) { a += 900; b -= 700; } } d.pred(i, 0) = a; d.pred(i, 1) = b; }
    if (k.has("keep")) { auto q = split(k.s("keep"), '.'); mat x(n, q.size()); for (size_t j = 0; j < q.size(); j++) x.col(j) = d.x.col(std::stoul(q[j])); d.x = x; }
    if (k.has("perm")) {          // perm=k : k-th rotation, r: reversal
        uvec ix(n); std::string ps = k.s("perm");
        if (ps == "r") for (int i = 0; i < n; i++) ix(i) = n - 1 - i;
        else if (ps.find('.') != std::string::npos) { auto q = split(ps, '.'); for (int i = 0; i < n; i++) ix(i) = std::stoul(q[i]); }
        else { int r = std::stoi(ps); for (int i = 0; i < n; i++) ix(i) = (i + r) % n; }
        d.coords = mat(d.coords.rows(ix)); d.x = mat(d.x.rows(ix)); d.y = vec(d.y.rows(ix)); d.times = vec(d.times.rows(ix));
        std::vector<std::string> gr; for (int i = 0; i < n; i++) gr.push_back(d.groups[ix(i)]); d.groups = gr;
    }
    // other presentations of the same problem
    if (k.has("vperm")) { auto q = split(k.s("vperm"), '.'); mat x = d.x; for (size_t j = 0; j < q.size(); j++) d.x.col(j) = x.col(std::stoul(q[j])); }
    if (k.has("xsc")) d.x.col(k.i("xsc")) *= k.d("xsf", 4);
    if (k.has("ysc")) d.y *= k.d("ysc");
    if (k.has("move")) for (mat* c : {&d.coords, &d.pred}) { std::string m = k.s("move"); mat o = *c;
        if (m == "rot") { c->col(0) = -o.col(1); c->col(1) = o.col(0); } else if (m == "half") *c = -o; else if (m == "refl") c->col(0) = -o.col(0); else if (m == "swap") { c->col(0) = o.col(1); c->col(1) = o.col(0); }
        else if (m == "shift") { c->col(0) += 4096; c->col(1) -= 512; } else if (m == "time") { if (c == &d.coords) d.times += 16; } else if (m == "sc4") *c *= 4; else if (m == "sc16th") *c /= 16; else if (m == "sc512th") *c /= 512; else if (m == "sc1024") *c *= 1024; }
    return d;
}
std::string diffMat(const mat& a, const mat& b, double rtol) {
    if (a.n_rows != b.n_rows || a.n_cols != b.n_cols) return fmt("shape %dx%d expected %dx%d", (int)b.n_rows, (int)b.n_cols, (int)a.n_rows, (int)a.n_cols);
    for (uword j = 0; j < a.n_cols; j++) {
        double sc = 0; for (uword i = 0; i < a.n_rows; i++) if (std::isfinite(a(i, j))) sc = std::max(sc, std::fabs(a(i, j)));
        for (uword i = 0; i < a.n_rows; i++) {
            double x = a(i, j), y = b(i, j);
            if (std::isnan(x) && std::isnan(y)) continue;
            if (x == y) continue;
            if (!std::isfinite(x) || !std::isfinite(y) || std::fabs(x - y) > rtol * (std::fabs(x) + 1e-2 * sc) + 1e-11) return fmt("(%d,%d) is %.12g expected %.12g", (int)i, (int)j, y, x);
        }
    }
    return "";
}
std::string diff(const Out& r, const Out& g, double rtol, const std::set<std::string>& only) {
    if (r.threw != g.threw) return g.threw ? "threw \"" + g.exc + "\" where a result was expected" : "returned normally where an exception (\"" + r.exc + "\") was expected";
    if (r.threw) return (g.exc.substr(0, 1) == "@" && r.exc.substr(0, 1) != "@") ? "ended with " + g.exc : "";
    for (auto& p : r.v) {
        if (!only.empty() && !only.count(p.first)) continue;
        auto it = g.v.find(p.first); if (it == g.v.end() && p.first[0] == '~') continue; if (it == g.v.end()) return "result " + p.first + " missing";
        std::string d = diffMat(p.second, it->second, rtol); if (!d.empty()) return p.first + d.insert(0, " ");
    }
    return "";
}
uint64_t fingerprint(const Out& o) {
    std::string s = o.threw ? "!" + o.exc : "";
    for (auto& p : o.v) { s += p.first; for (uword i = 0; i < p.second.n_elem; i++) s += fmt("%.6g,", p.second(i)); }
    return hash64(s);
}
std::string brief(const Out& o) {
    if (o.threw) return "exception: " + o.exc;
    std::string s; for (auto& p : o.v) { s += p.first + "[" + fmt("%dx%d", (int)p.second.n_rows, (int)p.second.n_cols) + "]"; if (p.second.n_elem) s += fmt("=%.6g.. ", p.second(0)); if (s.size() > 300) break; }
    return s;
}
namespace {
class Tele : public gwm::ITelegram {
    TeleState* s;
public:
    explicit Tele(TeleState* st) : s(st) {}
    void called() { if (s->onCall) s->onCall(s->calls++); }
    void print(std::string m, LogLevel l, std::string fn, std::string file) override {
        called(); rt::EnvGuard g; if ((int)l <= 3) s->errors++; if (s->stopped && (int)l <= 6) s->infoAfterStop++;
        if (s->record) s->events.push_back({0, 0, 0, std::string(m.c_str()), (int)l});
    }
    void progress(std::size_t c, std::size_t t, std::string, std::string) override { called(); rt::EnvGuard g; if (s->record) s->events.push_back({1, (double)c, (double)t, "", 0}); }
    void progress(double p, std::string, std::string) override { called(); rt::EnvGuard g; if (s->record) s->events.push_back({2, p, 0, "", 0}); }
    bool stop() override {
        called(); rt::EnvGuard g; long k = s->polls++;
        if (s->record) s->events.push_back({3, (double)gDistCalls, (double)rt::lapack.count, "", 0});
        if (s->stopped) s->pollsAfterStop++;
        bool r = s->stopAt >= 0 && (s->sticky ? k >= s->stopAt : k == s->stopAt);
        if (r && !s->stopped) { s->stopped = true; s->solvesAtStop = rt::lapack.count; s->distAtStop = gDistCalls; }
        return r;
    }
};
}
std::unique_ptr<gwm::ITelegram> makeTele(TeleState* st) { return std::unique_ptr<gwm::ITelegram>(new Tele(st)); }
