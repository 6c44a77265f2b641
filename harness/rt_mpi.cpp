// MPI ranks as fibers; every wildcard match is a branch point (POE-style: a wildcard receive is matched
// only when no rank can make progress otherwise, so every sender that can compete is a candidate).
// synchronous=false: sends are buffered and rooted collectives release the ranks that need no data;
// synchronous=true : a send completes only when received, every collective synchronises all ranks.
#include "rt.h"
#include "rt_core.h"
#include <mpi.h>
#include <cstring>
#include <deque>
#include <memory>
#include <exception>
#include <cstdio>
using namespace rt;
namespace rt { MpiConfig mpiCfg; MpiStats mpiStats; }
namespace {
struct Msg { int src, dst, tag; std::vector<char> data; bool consumed = false; };
typedef std::shared_ptr<Msg> MsgP;
struct Coll { int kind = -1, root = -1; int type = 0, op = 0; std::vector<std::vector<char>> in; std::vector<std::vector<char>> out; std::vector<char> arrived; std::vector<char> outReady; int n = 0; long count = -1; };
struct Req { int kind = 0; MsgP msg; void* buf = nullptr; int count = 0, type = 0, src = 0, tag = 0; bool live = false; };
struct Rank {
    rtc::Ctx ctx; rtc::Stack stk{}; int id = 0; bool done = false;
    enum W { RUN, WSEND, WRECV, WCOLL, WPROBE } wait = RUN;
    MsgP sending; int src = 0, tag = 0; MsgP matched; uint64_t collSeq = 0, waitColl = 0; std::vector<Req> reqs;
};
std::vector<std::unique_ptr<Rank>> R; rtc::Ctx mainCtx; Rank* cur = nullptr; const std::function<void(int)>* bodyFn = nullptr;
std::deque<MsgP> inflight; std::vector<std::unique_ptr<Coll>> colls; size_t decision = 0;
int typeSize(int t) {
    switch (t) { case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_C_BOOL: case MPI_CXX_BOOL: case MPI_UINT8_T: case MPI_INT8_T: return 1; case MPI_SHORT: case MPI_UNSIGNED_SHORT: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4; default: return 8; }
}
void err(const std::string& s) { if (mpiStats.error.empty()) mpiStats.error = s; }
extern "C" void rankMain(unsigned lo, unsigned hi) {
    Rank* r = (Rank*)(((uintptr_t)hi << 32) | (uintptr_t)lo);
    try { (*bodyFn)(r->id); } catch (...) { err("exception escaped rank body"); }
    r->done = true; rtc::swapTo(r->ctx, mainCtx); abort();
}
// first deliverable message for rank r from source s with tag t (non-overtaking)
MsgP firstFrom(int dst, int s, int tag) {
    for (auto& m : inflight) if (!m->consumed && m->dst == dst && m->src == s && (tag == MPI_ANY_TAG || m->tag == tag)) return m;
    return nullptr;
}
bool ready(Rank& r) {
    if (r.done) return false;
    switch (r.wait) {
    case Rank::RUN: return true;
    case Rank::WSEND: return r.sending->consumed;
    case Rank::WRECV: case Rank::WPROBE: if (r.matched) return true; if (r.src != MPI_ANY_SOURCE) { MsgP m = firstFrom(r.id, r.src, r.tag); if (m) { r.matched = m; if (r.wait == Rank::WRECV) m->consumed = true; return true; } } return false;
    case Rank::WCOLL: return colls[r.waitColl]->outReady[r.id];
    }
    return false;
}
void suspend() { Rank* r = cur; rtc::swapTo(r->ctx, mainCtx); }
void block(Rank::W w) { cur->wait = w; while (!ready(*cur)) suspend(); cur->wait = Rank::RUN; }
template <class T> void comb(T* a, const T* b, long n, int op) { for (long i = 0; i < n; i++) switch (op) { case MPI_SUM: a[i] += b[i]; break; case MPI_MAX: if (b[i] > a[i]) a[i] = b[i]; break; case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break; case MPI_PROD: a[i] *= b[i]; break; case MPI_LAND: a[i] = a[i] && b[i]; break; case MPI_LOR: a[i] = a[i] || b[i]; break; default: err("unsupported reduction"); } }
void combine(std::vector<char>& a, const std::vector<char>& b, int type, int op) {
    long n = (long)std::min(a.size(), b.size()) / typeSize(type);
    switch (type) {
    case MPI_DOUBLE: comb((double*)a.data(), (const double*)b.data(), n, op); break; case MPI_FLOAT: comb((float*)a.data(), (const float*)b.data(), n, op); break;
    case MPI_INT: case MPI_INT32_T: comb((int*)a.data(), (const int*)b.data(), n, op); break; case MPI_UNSIGNED: case MPI_UINT32_T: comb((unsigned*)a.data(), (const unsigned*)b.data(), n, op); break;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: comb((long*)a.data(), (const long*)b.data(), n, op); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: comb((unsigned long*)a.data(), (const unsigned long*)b.data(), n, op); break;
    case MPI_SHORT: comb((short*)a.data(), (const short*)b.data(), n, op); break;
    default: comb((unsigned char*)a.data(), (const unsigned char*)b.data(), n, op);
    }
}
enum CK { BARRIER, BCAST, REDUCE, ALLREDUCE, GATHER, ALLGATHER, SCATTER, ALLTOALL };
const char* ckName[] = {"Barrier", "Bcast", "Reduce", "Allreduce", "Gather", "Allgather", "Scatter", "Alltoall"};
// per-rank: contributes `in`, gets `out`.  For SCATTER/ALLTOALL `in` holds np chunks delimited by parts.
std::vector<char> collective(int kind, int root, int type, int op, std::vector<char> in, const std::vector<std::vector<char>>* parts = nullptr) {
    int np = (int)R.size(); Rank& me = *cur; uint64_t k = me.collSeq++;
    while (colls.size() <= k) { colls.emplace_back(new Coll()); auto& c = *colls.back(); c.in.resize(np); c.out.resize(np); c.arrived.assign(np, 0); c.outReady.assign(np, 0); }
    Coll& c = *colls[k];
    if (c.kind < 0) { c.kind = kind; c.root = root; c.type = type; c.op = op; mpiStats.collectives++; }
    else if (c.kind != kind || c.root != root || typeSize(c.type) != typeSize(type) || c.op != op) err(std::string("mismatched collectives: ") + ckName[c.kind] + "(root " + std::to_string(c.root) + ") vs " + ckName[kind] + "(root " + std::to_string(root) + ")");
    if (root >= np || root < -1) { err("bad root"); }
    c.in[me.id] = std::move(in); c.arrived[me.id] = 1; c.n++;
    bool rootIn = root >= 0 && root < np && c.arrived[root];
    if (parts && me.id == root && kind == SCATTER) for (int i = 0; i < np; i++) c.out[i] = (*parts)[i];
    bool all = c.n == np;
    auto finishAll = [&]() {
        if (kind == REDUCE || kind == ALLREDUCE) {
            for (int i = 0; i < np; i++) if (c.in[i].size() != c.in[0].size()) err(std::string(ckName[kind]) + " with different counts");
            std::vector<char> acc = c.in[0]; for (int i = 1; i < np; i++) combine(acc, c.in[i], c.type, c.op);
            for (int i = 0; i < np; i++) if (kind == ALLREDUCE || i == root) c.out[i] = acc;
        } else if (kind == GATHER || kind == ALLGATHER) {
            std::vector<char> cat; for (int i = 0; i < np; i++) cat.insert(cat.end(), c.in[i].begin(), c.in[i].end());
            for (int i = 0; i < np; i++) if (kind == ALLGATHER || i == root) c.out[i] = cat;
        }
        for (int i = 0; i < np; i++) c.outReady[i] = 1;
    };
    if (kind == BCAST && me.id == root) for (int i = 0; i < np; i++) if (i != root) c.out[i] = c.in[root];
    if (mpiCfg.synchronous) { if (all) finishAll(); }
    else switch (kind) {
        case BCAST: case SCATTER: if (me.id == root) { for (int i = 0; i < np; i++) c.outReady[i] = 1; } else if (!rootIn) {} break;
        case REDUCE: case GATHER: if (me.id != root) c.outReady[me.id] = 1; if (all) finishAll(); break;
        default: if (all) finishAll();
    }
    me.waitColl = k; block(Rank::WCOLL);
    return kind == GATHER || kind == ALLGATHER ? c.out[me.id] : c.out[me.id];
}
std::vector<char> bytes(const void* p, long n, int t) { std::vector<char> v((size_t)(n > 0 ? n * typeSize(t) : 0)); if (!v.empty()) memcpy(v.data(), p, v.size()); return v; }
void deliver(MsgP m, void* buf, int count, int type, MPI_Status* st) {
    size_t cap = (size_t)count * typeSize(type);
    if (m->data.size() > cap) { err("message truncated: " + std::to_string(m->data.size()) + " > " + std::to_string(cap)); }
    if (!m->data.empty()) memcpy(buf, m->data.data(), std::min(cap, m->data.size()));
    if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->bytes_ = (long)m->data.size(); }
}
MsgP post(const void* b, int n, int t, int d, int tag) {
    if (d < 0 || d >= (int)R.size()) { err("send to invalid rank"); return nullptr; }
    if (n < 0) { err("negative count"); n = 0; }
    MsgP m(new Msg()); m->src = cur->id; m->dst = d; m->tag = tag; m->data = bytes(b, n, t); inflight.push_back(m); mpiStats.messages++; return m;
}
void cleanInflight() { while (!inflight.empty() && inflight.front()->consumed) inflight.pop_front(); }
}
namespace rt {
int mpiRank() { return cur ? cur->id : 0; }
void mpiRun(const std::function<void(int)>& body) {
    mpiStats = MpiStats(); R.clear(); inflight.clear(); colls.clear(); decision = 0; bodyFn = &body;
    for (int i = 0; i < mpiCfg.np; i++) {
        R.emplace_back(new Rank()); Rank* r = R.back().get(); r->id = i; r->stk = rtc::getStack(); getcontext(&r->ctx.uc);
        r->ctx.uc.uc_stack.ss_sp = r->stk.base; r->ctx.uc.uc_stack.ss_size = r->stk.size; r->ctx.uc.uc_link = nullptr;
        uintptr_t p = (uintptr_t)r; makecontext(&r->ctx.uc, (void (*)())rankMain, 2, (unsigned)(p & 0xffffffffu), (unsigned)(p >> 32));
    }
    for (;;) {
        bool any = false;
        for (auto& r : R) if (ready(*r)) { any = true; mpiStats.steps++; cur = r.get(); rtc::swapTo(mainCtx, r->ctx); cur = nullptr; cleanInflight(); }
        if (any) continue;
        bool allDone = true; for (auto& r : R) if (!r->done) allDone = false;
        if (allDone) break;
        // wildcard candidates
        std::vector<std::pair<Rank*, MsgP>> cand;
        for (auto& r : R) if (!r->done && (r->wait == Rank::WRECV || r->wait == Rank::WPROBE) && r->src == MPI_ANY_SOURCE)
            for (int s = 0; s < (int)R.size(); s++) { MsgP m = firstFrom(r->id, s, r->tag); if (m) cand.push_back({r.get(), m}); }
        if (cand.empty()) { mpiStats.deadlock = true; break; }
        int ch = 0;
        if (cand.size() > 1) { if (decision < mpiCfg.prefix.size()) { ch = mpiCfg.prefix[decision]; if (ch >= (int)cand.size()) { err("@replay divergence"); ch = 0; } } decision++; mpiStats.points.push_back({ch, (int)cand.size(), false, 0}); }
        cand[ch].first->matched = cand[ch].second; if (cand[ch].first->wait == Rank::WRECV) cand[ch].second->consumed = true;
    }
    if (!mpiStats.deadlock) for (auto& m : inflight) if (!m->consumed) err("message never received (from " + std::to_string(m->src) + " to " + std::to_string(m->dst) + " tag " + std::to_string(m->tag) + ")");
    for (auto& r : R) if (r->done) rtc::putStack(r->stk);
    cur = nullptr;
}
}
extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int r, int* p) { *p = r; return 0; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_FUNNELED; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Abort(MPI_Comm, int) { err("MPI_Abort called"); return 0; }
double MPI_Wtime(void) { return 0; }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "node"); *l = 4; return 0; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = cur ? cur->id : 0; return 0; }
int MPI_Comm_size(MPI_Comm, int* s) { *s = cur ? (int)R.size() : 1; return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* d) { *d = c; return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Error_string(int, char* s, int* l) { strcpy(s, "error"); *l = 5; return 0; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = typeSize(t); return 0; }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = (int)(s->bytes_ / typeSize(t)); return 0; }
static int sendImpl(const void* b, int n, MPI_Datatype t, int d, int tag, bool sync) {
    if (!cur || d == MPI_PROC_NULL) return 0;
    MsgP m = post(b, n, t, d, tag); if (!m) return MPI_ERR_OTHER;
    if (sync) { cur->sending = m; block(Rank::WSEND); cur->sending = nullptr; }
    return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { return sendImpl(b, n, t, d, tag, mpiCfg.synchronous); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { return sendImpl(b, n, t, d, tag, true); }
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { return sendImpl(b, n, t, d, tag, false); }
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm) { return sendImpl(b, n, t, d, tag, mpiCfg.synchronous); }
static void recvWait(int src, int tag, Rank::W w) { cur->src = src; cur->tag = tag; cur->matched = nullptr; block(w); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Status* st) {
    if (!cur) return 0;
    if (s == MPI_PROC_NULL) { if (st) { st->MPI_SOURCE = s; st->MPI_TAG = MPI_ANY_TAG; st->bytes_ = 0; } return 0; }
    if (s != MPI_ANY_SOURCE && (s < 0 || s >= (int)R.size())) { err("receive from invalid rank"); return MPI_ERR_OTHER; }
    recvWait(s, tag, Rank::WRECV); MsgP m = cur->matched; cur->matched = nullptr; deliver(m, b, n, t, st); return 0;
}
int MPI_Probe(int s, int tag, MPI_Comm, MPI_Status* st) { recvWait(s, tag, Rank::WPROBE); MsgP m = cur->matched; cur->matched = nullptr; if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->bytes_ = (long)m->data.size(); } return 0; }
int MPI_Iprobe(int s, int tag, MPI_Comm c, int* f, MPI_Status* st) {
    // default: let the other ranks run first, then report what is there
    suspend(); MsgP m; if (s == MPI_ANY_SOURCE) { for (int i = 0; i < (int)R.size() && !m; i++) m = firstFrom(cur->id, i, tag); } else m = firstFrom(cur->id, s, tag);
    *f = m ? 1 : 0; if (m && st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->bytes_ = (long)m->data.size(); } return 0;
}
static int newReq(Req q) { q.live = true; cur->reqs.push_back(q); return (int)cur->reqs.size(); }
static int isendImpl(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Request* r, bool sync) { MsgP m = post(b, n, t, d, tag); Req q; q.kind = sync ? 1 : 3; q.msg = m; *r = newReq(q); return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request* r) { return isendImpl(b, n, t, d, tag, r, mpiCfg.synchronous); }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request* r) { return isendImpl(b, n, t, d, tag, r, true); }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Request* r) { Req q; q.kind = 2; q.buf = b; q.count = n; q.type = t; q.src = s; q.tag = tag; *r = newReq(q); return 0; }
int MPI_Wait(MPI_Request* r, MPI_Status* st) {
    if (!*r) return 0; Req q = cur->reqs[*r - 1]; *r = 0;
    if (q.kind == 1) { cur->sending = q.msg; block(Rank::WSEND); cur->sending = nullptr; }
    else if (q.kind == 2) return MPI_Recv(q.buf, q.count, q.type, q.src, q.tag, MPI_COMM_WORLD, st);
    return 0;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) {
    // receives first: all requests progress together in MPI
    for (int i = 0; i < n; i++) if (r[i] && cur->reqs[r[i] - 1].kind == 2) MPI_Wait(&r[i], st ? &st[i] : nullptr);
    for (int i = 0; i < n; i++) MPI_Wait(&r[i], st ? &st[i] : nullptr); return 0;
}
int MPI_Test(MPI_Request* r, int* f, MPI_Status* st) { *f = 1; return MPI_Wait(r, st); }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stp, int d, int stag, void* rb, int rn, MPI_Datatype rt_, int s, int rtag, MPI_Comm c, MPI_Status* st) {
    MPI_Request q; MPI_Isend(sb, sn, stp, d, stag, c, &q); MPI_Recv(rb, rn, rt_, s, rtag, c, st); return MPI_Wait(&q, nullptr);
}
int MPI_Barrier(MPI_Comm) { if (cur) collective(BARRIER, -1, MPI_BYTE, 0, {}); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm) {
    if (!cur) return 0;
    auto o = collective(BCAST, root, t, 0, cur->id == root ? bytes(b, n, t) : std::vector<char>((size_t)n * typeSize(t)));
    if (cur->id != root) { if (o.size() != (size_t)n * typeSize(t)) err("Bcast count differs: root " + std::to_string(o.size()) + " bytes, rank " + std::to_string(cur->id) + " " + std::to_string((size_t)n * typeSize(t))); memcpy(b, o.data(), std::min(o.size(), (size_t)n * typeSize(t))); }
    return 0;
}
static const void* inb(const void* s, void* r) { return s == MPI_IN_PLACE ? r : s; }
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) {
    if (!cur) { if (s != MPI_IN_PLACE) memcpy(r, s, (size_t)n * typeSize(t)); return 0; }
    auto o = collective(REDUCE, root, t, op, bytes(inb(s, r), n, t)); if (cur->id == root && !o.empty()) memcpy(r, o.data(), std::min(o.size(), (size_t)n * typeSize(t))); return 0;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
    if (!cur) { if (s != MPI_IN_PLACE) memcpy(r, s, (size_t)n * typeSize(t)); return 0; }
    auto o = collective(ALLREDUCE, -1, t, op, bytes(inb(s, r), n, t)); if (!o.empty()) memcpy(r, o.data(), std::min(o.size(), (size_t)n * typeSize(t))); return 0;
}
static void scatterOut(const std::vector<char>& o, const std::vector<std::vector<char>>* dummy, void* r, const int* counts, const int* disp, int n, MPI_Datatype t, const Coll& c) {
    size_t off = 0; (void)dummy; (void)o;
    for (int i = 0; i < (int)R.size(); i++) {
        size_t want = (size_t)(counts ? counts[i] : n) * typeSize(t), d = (size_t)(counts ? disp[i] : (long)i * n) * typeSize(t);
        const auto& x = c.in[i]; if (x.size() > want) err("gather: contribution of rank " + std::to_string(i) + " larger than the receive count");
        if (!x.empty()) memcpy((char*)r + d, x.data(), std::min(want, x.size())); off += want;
    }
}
static int gatherImpl(int kind, const void* s, int sn, MPI_Datatype st, void* r, const int* counts, const int* disp, int rn, MPI_Datatype rt_, int root) {
    if (!cur) { memcpy(r, s, (size_t)sn * typeSize(st)); return 0; }
    std::vector<char> in; if (s == MPI_IN_PLACE) { size_t d = (size_t)(counts ? disp[cur->id] : (long)cur->id * rn) * typeSize(rt_); in = bytes((char*)r + d, counts ? counts[cur->id] : rn, rt_); } else in = bytes(s, sn, st);
    auto o = collective(kind, root, s == MPI_IN_PLACE ? rt_ : st, 0, in);
    if (kind == ALLGATHER || cur->id == root) scatterOut(o, nullptr, r, counts, disp, rn, rt_, *colls[cur->collSeq - 1]);
    return 0;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype t, int root, MPI_Comm) { return gatherImpl(GATHER, s, sn, st, r, nullptr, nullptr, rn, t, root); }
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* c, const int* d, MPI_Datatype t, int root, MPI_Comm) { return gatherImpl(GATHER, s, sn, st, r, c, d, 0, t, root); }
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype t, MPI_Comm) { return gatherImpl(ALLGATHER, s, sn, st, r, nullptr, nullptr, rn, t, -1); }
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* c, const int* d, MPI_Datatype t, MPI_Comm) { return gatherImpl(ALLGATHER, s, sn, st, r, c, d, 0, t, -1); }
static int scatterImpl(const void* s, const int* counts, const int* disp, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt_, int root) {
    if (!cur) { memcpy(r, s, (size_t)rn * typeSize(rt_)); return 0; }
    std::vector<std::vector<char>> parts;
    if (cur->id == root) for (int i = 0; i < (int)R.size(); i++) parts.push_back(bytes((const char*)s + (size_t)(counts ? disp[i] : (long)i * sn) * typeSize(st), counts ? counts[i] : sn, st));
    auto o = collective(SCATTER, root, cur->id == root ? st : rt_, 0, {}, &parts);
    if (r != MPI_IN_PLACE) { size_t cap = (size_t)rn * typeSize(rt_); if (o.size() != cap) err("scatter: part of " + std::to_string(o.size()) + " bytes into a buffer of " + std::to_string(cap)); if (!o.empty()) memcpy(r, o.data(), std::min(cap, o.size())); }
    return 0;
}
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype t, int root, MPI_Comm) { return scatterImpl(s, nullptr, nullptr, sn, st, r, rn, t, root); }
int MPI_Scatterv(const void* s, const int* c, const int* d, MPI_Datatype st, void* r, int rn, MPI_Datatype t, int root, MPI_Comm) { return scatterImpl(s, c, d, 0, st, r, rn, t, root); }
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype t, MPI_Comm) {
    if (!cur) { memcpy(r, s, (size_t)sn * typeSize(st)); return 0; }
    int np = (int)R.size(); collective(ALLTOALL, -1, st, 0, bytes(s, (long)sn * np, st)); Coll& c = *colls[cur->collSeq - 1];
    size_t ch = (size_t)sn * typeSize(st); for (int i = 0; i < np; i++) memcpy((char*)r + (size_t)i * rn * typeSize(t), c.in[i].data() + ch * cur->id, std::min(ch, (size_t)rn * typeSize(t))); return 0;
}
}
