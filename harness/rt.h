// Controlled runtime: OpenMP threads and MPI ranks as fibers of one OS thread under an explicit
// scheduler, memory-access events from -fsanitize=thread instrumentation.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt {

// ---- OpenMP exploration --------------------------------------------------------------------
// A schedule is a list of decisions taken at scheduling points.  Points are: a fiber reaches an
// access to a conflicting granule, a lock/critical/atomic/dynamic-chunk operation, an environment
// call (if envPoints), a fiber blocks or finishes.  At each point the decision is the index into the
// enabled list, the running fiber (if enabled) being index 0.
struct Point { int chosen; int enabled; bool preempt; uint32_t region; };

struct OmpConfig {
    int teamLimit = 64;          // a team may be smaller than requested (OpenMP allows it)
    int maxThreads = 1;          // omp_get_max_threads()
    int procs = 8;               // omp_get_num_procs()
    bool record = false;         // record accesses to find conflicts
    bool explore = false;        // stop at conflict granules
    bool envPoints = false;      // environment callbacks are scheduling points
    std::vector<int> prefix;     // decisions to replay; afterwards default (0)
    // whole-region orders: region index -> permutation id applied when nothing else decides
    int orderRegion = -1; int orderPerm = 0;   // orderRegion == -2: every region
};

struct OmpStats {
    std::vector<Point> points;
    uint64_t regions = 0, accesses = 0, conflicts = 0, maxTeam = 0;
    bool escaped = false;        // an exception left a parallel region: std::terminate in real life
    bool deadlock = false;
    bool overrun = false;
    uint64_t envQueries = 0;     // questions about thread limits and processors
};

extern OmpConfig ompCfg;
extern OmpStats ompStats;
void ompBegin();                 // start of a controlled run (resets stats and arenas)
void ompEnd();                   // end of a controlled run; leaves controlled mode
void ompClearConflicts();
size_t ompConflictCount();
// conflicts observed in the last recorded run are merged into the conflict set; returns #new
size_t ompMergeConflicts();
void envEnter(); void envLeave(); // around environment callbacks
struct EnvGuard { EnvGuard() { envEnter(); } ~EnvGuard() { envLeave(); } };
int curThread();                 // current OpenMP thread number (0 outside)
bool inParallel();

// ---- LAPACK fault injection ----------------------------------------------------------------
struct LapackCfg { long failAt = -1; bool sticky = false; long count = 0; long injected = 0; };
extern LapackCfg lapack;
extern int memFill;              // content of newly allocated memory and stacks (-1: whatever it is)

// ---- MPI ------------------------------------------------------------------------------------
struct MpiConfig {
    int np = 1;
    bool synchronous = false;    // sends block until matched (no buffering)
    std::vector<int> prefix;     // decisions at wildcard matches
};
struct MpiStats {
    std::vector<Point> points;
    uint64_t messages = 0, collectives = 0, steps = 0;
    bool deadlock = false;
    std::string error;           // misuse: truncation, mismatched collective, leftover message
};
extern MpiConfig mpiCfg;
extern MpiStats mpiStats;
// runs body(rank) on every rank; returns when all finished or stuck
void mpiRun(const std::function<void(int)>& body);
int mpiRank();
}
