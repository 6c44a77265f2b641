// mc <property> <quick|thorough> <report.json> [--case ID] [--jobs N] | mc scen KEY | mc list <property> <tier>
#include "common.h"
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <poll.h>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <sys/resource.h>
using std::string; using std::vector;
static string esc(const string& s) { string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) o += ' '; else if (c >= 127) o += '?'; else o += c; } return o; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static string ser(const Res& r) {
    string s = fmt("N %llu %llu %llu %llu %llu %llu\n", (unsigned long long)r.execs, (unsigned long long)r.states, (unsigned long long)r.transitions, (unsigned long long)r.validated, (unsigned long long)r.distinct, (unsigned long long)r.capped);
    for (auto& v : r.viol) s += "V " + esc(v.key) + "\x01" + esc(v.what) + "\n";
    for (auto& v : r.samples) s += "S " + esc(v) + "\n";
    for (auto& v : r.notes) s += "T " + esc(v) + "\n";
    for (auto& c : r.ctr) s += "C " + c.first + " " + std::to_string(c.second) + "\n";
    return s + "E\n";
}
struct Job { pid_t pid; int fd; size_t idx; double t0; string buf; bool retry; double limit; };
static void writeAll(int fd, const string& s) { size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) _exit(3); o += k; } }
int main(int argc, char** argv) {
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    if (argc >= 3 && !strcmp(argv[1], "scen")) {
        Env e; KV k(argv[2]); Out o = runScenario(k, e);
        if (o.threw) printf("threw: %s\n", o.exc.c_str());
        for (auto& p : o.v) { printf("%s (%dx%d):", p.first.c_str(), (int)p.second.n_rows, (int)p.second.n_cols); for (arma::uword i = 0; i < p.second.n_elem && i < 12; i++) printf(" %.9g", p.second(i)); printf("\n"); }
        return 0;
    }
    if (argc < 4) { fprintf(stderr, "usage\n"); return 2; }
    bool list = !strcmp(argv[1], "list");
    string prop = list ? argv[2] : argv[1]; bool thorough = !strcmp(list ? argv[3] : argv[2], "thorough"); string report = list ? "" : argv[3];
    string only; int jobs = (int)sysconf(_SC_NPROCESSORS_ONLN); if (jobs < 1) jobs = 1; if (jobs > 16) jobs = 16;
    for (int i = 4; i < argc; i++) { if (!strcmp(argv[i], "--case") && i + 1 < argc) only = argv[++i]; else if (!strcmp(argv[i], "--jobs") && i + 1 < argc) jobs = atoi(argv[++i]); }
    if (!registry().count(prop)) { fprintf(stderr, "no such property %s\n", prop.c_str()); return 2; }
    vector<Case> cases; registry()[prop](cases, thorough);
    if (list) { for (auto& c : cases) printf("%s\n", c.id.c_str()); return 0; }
    if (!only.empty()) { vector<Case> c2; for (auto& c : cases) if (c.id == only) c2.push_back(c); if (c2.empty()) { fprintf(stderr, "no such case\n"); return 2; } cases.swap(c2); }
    double t0 = now(); size_t next = 0; vector<Job> run; vector<std::pair<size_t, int>> retry; // retry alone with a longer limit
    Res tot; size_t done = 0, failedInfra = 0; vector<std::pair<string, Violation>> viol; vector<std::pair<double, string>> slow;
    const double budget = 720;             // a quick run has to come to its verdict in time, even if what it runs hangs
    bool hangs = false;                    // a case that does not end, not even when it runs alone
    auto start = [&](size_t idx, bool isRetry) {
        int fd[2]; if (pipe(fd)) { perror("pipe"); exit(2); }
        fflush(stdout); fflush(stderr); pid_t p = fork();
        if (p == 0) {
            close(fd[0]); for (auto& j : run) close(j.fd);
            if (!getenv("MC_VERBOSE")) { if (!freopen("/dev/null", "w", stdout)) {} if (!freopen("/dev/null", "w", stderr)) {} }
            rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
            Res r; cases[idx].fn(r); writeAll(fd[1], ser(r)); _exit(0);
        }
        double limit = cases[idx].limit; if (!thorough) limit = std::min(limit, 250.0); if (isRetry) limit = thorough ? limit * 3 : std::max(100.0, std::min(limit * 3, budget - (now() - t0)));
        close(fd[1]); run.push_back({p, fd[0], idx, now(), "", isRetry, limit});
    };
    size_t cut = 0; bool firstOnly = getenv("MC_FIRST") != nullptr;   // stop at the first violation
    while (next < cases.size() || !run.empty() || !retry.empty()) {
        if (firstOnly && !viol.empty()) { for (auto& j : run) { kill(j.pid, SIGKILL); waitpid(j.pid, nullptr, 0); close(j.fd); } break; }
        if (!thorough && !viol.empty() && (hangs || now() - t0 > 500)) { cut = cases.size() - done; for (auto& j : run) { kill(j.pid, SIGKILL); waitpid(j.pid, nullptr, 0); close(j.fd); } break; }       // the verdict is certain
        bool hold = !thorough && retry.size() >= 6;          // look into the cases that failed before more of them use up the time
        while ((int)run.size() < jobs && next < cases.size() && !hold) start(next++, false);
        if (run.empty() && (next >= cases.size() || hold) && !retry.empty()) { auto q = retry.back(); retry.pop_back(); start(q.first, true); }
        vector<pollfd> pf; for (auto& j : run) pf.push_back({j.fd, POLLIN, 0});
        poll(pf.data(), pf.size(), 200);
        for (size_t i = 0; i < run.size();) {
            Job& j = run[i]; bool fin = false; char b[65536];
            pollfd q{j.fd, POLLIN, 0};
            while (poll(&q, 1, 0) > 0) { ssize_t k = read(j.fd, b, sizeof b); if (k > 0) j.buf.append(b, k); else { fin = true; break; } }
            bool to = !fin && now() - j.t0 > j.limit;
            if (to) kill(j.pid, SIGKILL);
            if (fin || to) {
                int st = 0; waitpid(j.pid, &st, 0); close(j.fd);
                Case& c = cases[j.idx]; bool complete = j.buf.size() >= 2 && j.buf.compare(j.buf.size() - 2, 2, "E\n") == 0;
                if (!complete && !j.retry) retry.push_back({j.idx, 1});
                else if (!complete) {
                    done++; hangs |= to; string w = to ? fmt("the run did not end within %.0f s", j.limit) : WIFSIGNALED(st) ? fmt("the run crashed with signal %d", WTERMSIG(st)) : fmt("the run ended the process with status %d", WEXITSTATUS(st));
                    viol.push_back({c.id, {"crash", w}});
                } else {
                    done++; slow.push_back({now() - j.t0, c.id});
                    size_t p = 0; while (p < j.buf.size()) {
                        size_t e = j.buf.find('\n', p); string l = j.buf.substr(p, e - p); p = e + 1;
                        if (l[0] == 'N') { unsigned long long a[6]; sscanf(l.c_str(), "N %llu %llu %llu %llu %llu %llu", a, a + 1, a + 2, a + 3, a + 4, a + 5); tot.execs += a[0]; tot.states += a[1]; tot.transitions += a[2]; tot.validated += a[3]; tot.distinct += a[4]; tot.capped += a[5]; }
                        else if (l[0] == 'V') { size_t s = l.find('\x01'); viol.push_back({c.id, {l.substr(2, s - 2), l.substr(s + 1)}}); }
                        else if (l[0] == 'S') { if (tot.samples.size() < 12 || (tot.samples.size() < 40 && hash64(l) % 16 == 0)) tot.samples.push_back(l.substr(2)); }
                        else if (l[0] == 'T') { if (tot.notes.size() < 40) tot.notes.push_back(l.substr(2)); }
                        else if (l[0] == 'C') { char nm[200]; unsigned long long v; if (sscanf(l.c_str(), "C %199s %llu", nm, &v) == 2) tot.ctr[nm] += v; }
                    }
                }
                run.erase(run.begin() + i); continue;
            }
            i++;
        }
    }
    (void)failedInfra; if (cut) tot.notes.push_back(fmt("%zu cases not run to the end, a violation being certain", cut));
    std::sort(slow.rbegin(), slow.rend());
    FILE* f = fopen(report.c_str(), "w"); if (!f) { perror(report.c_str()); return 2; }
    fprintf(f, "{\"property\":\"%s\",\"cases\":%zu,\"execs\":%llu,\"states\":%llu,\"transitions\":%llu,\"validated\":%llu,\"distinct\":%llu,\"capped\":%llu,\"wall\":%.2f,\n", prop.c_str(), cases.size(), (unsigned long long)tot.execs, (unsigned long long)tot.states, (unsigned long long)tot.transitions, (unsigned long long)tot.validated, (unsigned long long)tot.distinct, (unsigned long long)tot.capped, now() - t0);
    fprintf(f, "\"counters\":{"); bool first = true; for (auto& c : tot.ctr) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", c.first.c_str(), (unsigned long long)c.second); first = false; }
    auto arr = [&](const char* n, const vector<string>& v) { fprintf(f, ",\"%s\":[", n); for (size_t i = 0; i < v.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", v[i].c_str()); fprintf(f, "]"); };
    fprintf(f, "}"); arr("samples", tot.samples); arr("notes", tot.notes);
    vector<string> sl; for (size_t i = 0; i < slow.size() && i < 8; i++) sl.push_back(fmt("%.1fs ", slow[i].first) + esc(slow[i].second)); arr("slow", sl);
    fprintf(f, ",\n\"violations\":["); for (size_t i = 0; i < viol.size(); i++) fprintf(f, "%s\n{\"case\":\"%s\",\"key\":\"%s\",\"what\":\"%s\"}", i ? "," : "", esc(viol[i].first).c_str(), viol[i].second.key.c_str(), viol[i].second.what.c_str());
    fprintf(f, "]}\n"); fclose(f);
    return 0;
}
