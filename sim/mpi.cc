#include <sys/mman.h>
// Simulated MPI: communicators, collectives, point-to-point messages, requests.
#define SIM_MPI_IMPL
#include "sim.h"
#include <algorithm>
#include <list>

void boundary(); void progress_made();
void range_read(const void *, size_t); void range_write(const void *, size_t);
static void bump() { for (auto *r : ranks) r->spin_cnt = 0; progress_made(); }

struct CollArgs { int kind; const void *sb; long sc; MPI_Datatype st; void *rb; long rc; const int *rcs; const int *dsp; MPI_Datatype rt; MPI_Op op; int root; int color, key; MPI_Comm *out; const std::vector<int> *grp; };
struct CollInst { int arrived = 0, left = 0; bool done = false; std::vector<CollArgs *> a; VC vc; };
struct CommCore { int id; std::vector<int> members; std::map<long, CollInst> inst; std::vector<long> seq; bool world = false; int handles = 0; };
struct ompi_communicator_t { CommCore *core; int rank; int magic; };
struct ompi_group_t { std::vector<int> members; };
struct Msg { int src, dst, tag, comm; size_t len; const char *buf; std::string copy; bool eager; ompi_request_t *sreq; VC vc; long serial; };
struct ompi_request_t {
  int magic; int kind;           // 0 send 1 recv 2 persistent recv 3 persistent send
  bool active, done, persistent; int rank; void *buf; size_t len; int peer, tag; CommCore *comm; VC vc; bool hasvc;
  int serial; int opidx = -1; size_t got; int gotsrc, gottag; bool lib; ompi_request_t *inner;
};
struct ompi_info_t { std::map<std::string, std::string> kv; };

#include "ompi_syms.inc"

static std::vector<CommCore *> cores;
static CommCore *world;
static const int MAGIC = 0x51a7c0de;
extern int g_lib_depth;

int g_fatal = 1;
static void merr(const char *f, const char *m) { fail("mpierror", "%s: %s", f, m); }

static ompi_communicator_t *mk(CommCore *c, int rank) { c->handles++; if (cur) cur->comms_live++; return new ompi_communicator_t{c, rank, MAGIC}; }
void mpi_world_init() {
  world = new CommCore(); world->id = 0; world->world = true;
  for (int i = 0; i < NR; i++) world->members.push_back(i);
  world->seq.assign(NR, 0); cores.push_back(world);
}
static CommCore *core(MPI_Comm c, int *rank, const char *f) {
  if (c == MPI_COMM_WORLD) { *rank = cur->id; return world; }
  if (c == MPI_COMM_SELF) merr(f, "MPI_COMM_SELF not simulated");
  if (c == MPI_COMM_NULL || !c) merr(f, "null communicator");
  if (c->magic != MAGIC) merr(f, "invalid or freed communicator");
  *rank = c->rank;
  return c->core;
}
int comm_core_id(MPI_Comm c) { int r; return core(c, &r, "id")->id; }
std::vector<int> comm_members(MPI_Comm c) { int r; return core(c, &r, "m")->members; }

// ---------------------------------------------------------------- types and ops
enum TK { T_I1, T_U1, T_I2, T_I4, T_U4, T_I8, T_U8, T_F4, T_F8, T_II, T_LI, T_LD };
struct TypeInfo { int size; TK k; };
static char contiguous3[64];      // the one derived type: three MPI_INT in a row
static bool tinfo(MPI_Datatype t, TypeInfo *ti) {
#define TT(N, S, K) if (t == N) { *ti = {S, K}; return true; }
  TT(MPI_CHAR, 1, T_I1) TT(MPI_SIGNED_CHAR, 1, T_I1) TT(MPI_BYTE, 1, T_U1) TT(MPI_UNSIGNED_CHAR, 1, T_U1) TT(MPI_PACKED, 1, T_U1)
  TT(MPI_SHORT, 2, T_I2) TT(MPI_UNSIGNED_SHORT, 2, T_I2) TT(MPI_INT, 4, T_I4) TT(MPI_UNSIGNED, 4, T_U4) TT(MPI_LONG, 8, T_I8) TT(MPI_UNSIGNED_LONG, 8, T_U8)
  TT(MPI_LONG_LONG_INT, 8, T_I8) TT(MPI_UNSIGNED_LONG_LONG, 8, T_U8) TT(MPI_FLOAT, 4, T_F4) TT(MPI_DOUBLE, 8, T_F8) TT(MPI_INT8_T, 1, T_I1) TT(MPI_INT16_T, 2, T_I2)
  TT(MPI_INT32_T, 4, T_I4) TT(MPI_INT64_T, 8, T_I8) TT(MPI_UINT8_T, 1, T_U1) TT(MPI_UINT32_T, 4, T_U4) TT(MPI_UINT64_T, 8, T_U8)
  TT(MPI_REAL, 4, T_F4) TT(MPI_REAL4, 4, T_F4) TT(MPI_REAL8, 8, T_F8) TT(MPI_DOUBLE_PRECISION, 8, T_F8) TT(MPI_INTEGER, 4, T_I4) TT(MPI_INTEGER4, 4, T_I4) TT(MPI_INTEGER8, 8, T_I8)
  TT(MPI_LONG_INT, 16, T_LI) TT(MPI_2INT, 8, T_II) TT(MPI_DOUBLE_INT, 12, T_LD) TT(MPI_C_DOUBLE_COMPLEX, 16, T_U1)
  if (t == (MPI_Datatype)&contiguous3) { *ti = {12, T_U1}; return true; }
  return false;
}
static TypeInfo ti_of(MPI_Datatype t, const char *f) { TypeInfo x; if (!tinfo(t, &x)) merr(f, "unknown datatype"); return x; }
template <class T> static void app(T *d, const T *s, long n, MPI_Op op) {
  for (long i = 0; i < n; i++) {
    if (op == MPI_SUM) d[i] = d[i] + s[i]; else if (op == MPI_MAX) d[i] = s[i] > d[i] ? s[i] : d[i];
    else if (op == MPI_MIN) d[i] = s[i] < d[i] ? s[i] : d[i]; else if (op == MPI_PROD) d[i] = d[i] * s[i];
    else if (op == MPI_LAND) d[i] = d[i] && s[i]; else if (op == MPI_LOR) d[i] = d[i] || s[i];
    else merr("reduction", "unsupported operation");
  }
}
static void apply(void *d, const void *s, long n, MPI_Datatype t, MPI_Op op) {
  TypeInfo k = ti_of(t, "reduction");
  switch (k.k) {
    case T_I1: app((signed char *)d, (signed char *)s, n, op); break; case T_U1: app((unsigned char *)d, (unsigned char *)s, n, op); break;
    case T_I2: app((short *)d, (short *)s, n, op); break; case T_I4: app((int *)d, (int *)s, n, op); break; case T_U4: app((unsigned *)d, (unsigned *)s, n, op); break;
    case T_I8: app((long *)d, (long *)s, n, op); break; case T_U8: app((unsigned long *)d, (unsigned long *)s, n, op); break;
    case T_F4: app((float *)d, (float *)s, n, op); break; case T_F8: app((double *)d, (double *)s, n, op); break;
    default: merr("reduction", "unsupported datatype");
  }
}

// ---------------------------------------------------------------- collectives
enum { C_BARRIER = 1, C_BCAST, C_GATHER, C_GATHERV, C_SCATTER, C_SCATTERV, C_ALLGATHER, C_ALLGATHERV, C_ALLREDUCE, C_REDUCE, C_RS, C_RSB, C_SPLIT, C_DUP, C_CREATE, C_ALLTOALL };
static long bytes(long n, MPI_Datatype t) { return n * ti_of(t, "collective").size; }
static void xput(int worldrank, void *d, const void *s, size_t n) { // write into a member's buffer on its behalf
  if (!n) return;
  Rank *save = cur; cur = ranks[worldrank];
  range_write(d, n); cur = save;
  memmove(d, s, n);
}
static void compute(CommCore *c, CollInst &I) {
  int n = c->members.size();
  CollArgs &A0 = *I.a[0];
  for (int i = 1; i < n; i++) if (I.a[i]->kind != A0.kind) { fail("mpierror", "ranks call different collectives (%d and %d) on one communicator", A0.kind, I.a[i]->kind); }
  auto rootck = [&]() { for (int i = 1; i < n; i++) if (I.a[i]->root != A0.root) merr("collective", "ranks name different roots"); };
  switch (A0.kind) {
    case C_BARRIER: break;
    case C_BCAST: {
      rootck(); CollArgs &R = *I.a[A0.root]; long b = bytes(R.rc, R.rt);
      for (int i = 0; i < n; i++) if (i != A0.root) { if (bytes(I.a[i]->rc, I.a[i]->rt) != b) merr("MPI_Bcast", "different sizes"); xput(c->members[i], I.a[i]->rb, R.rb, b); }
      break; }
    case C_GATHER: case C_GATHERV: case C_ALLGATHER: case C_ALLGATHERV: {
      bool all = A0.kind == C_ALLGATHER || A0.kind == C_ALLGATHERV; if (!all) rootck();
      std::vector<std::string> snap(n);
      for (int i = 0; i < n; i++) { CollArgs &S = *I.a[i]; if (S.sb == MPI_IN_PLACE) {
          long ext = ti_of(S.rt, "gather").size; long off = S.rcs ? S.dsp[i] * ext : i * S.rc * ext; long len = (S.rcs ? S.rcs[i] : S.rc) * ext; snap[i].assign((char *)S.rb + off, len);
        } else snap[i].assign((const char *)S.sb, bytes(S.sc, S.st)); }
      for (int r = 0; r < n; r++) { if (!all && r != A0.root) continue; CollArgs &R = *I.a[r]; long ext = ti_of(R.rt, "gather").size;
        for (int i = 0; i < n; i++) { long off = R.rcs ? R.dsp[i] * ext : i * R.rc * ext; long len = (R.rcs ? R.rcs[i] : R.rc) * ext;
          if (len != (long)snap[i].size()) merr("gather", "counts do not match"); xput(c->members[r], (char *)R.rb + off, snap[i].data(), len); } }
      break; }
    case C_SCATTERV: case C_SCATTER: {
      rootck(); CollArgs &R = *I.a[A0.root]; long ext = ti_of(R.st, "scatter").size;
      for (int i = 0; i < n; i++) { long off = R.rcs ? R.dsp[i] * ext : i * R.sc * ext; long len = (R.rcs ? R.rcs[i] : R.sc) * ext;
        if (I.a[i]->rb == MPI_IN_PLACE) continue; if (len != bytes(I.a[i]->rc, I.a[i]->rt)) merr("MPI_Scatterv", "counts do not match"); xput(c->members[i], I.a[i]->rb, (const char *)R.sb + off, len); }
      break; }
    case C_ALLREDUCE: case C_REDUCE: {
      if (A0.kind == C_REDUCE) rootck();
      long cnt = A0.rc; std::string acc; 
      for (int i = 0; i < n; i++) { CollArgs &S = *I.a[i]; if (S.rc != cnt) merr("reduction", "different counts");
        const void *s = S.sb == MPI_IN_PLACE ? S.rb : S.sb; if (i == 0) acc.assign((const char *)s, bytes(cnt, S.rt)); else apply(&acc[0], s, cnt, S.rt, S.op); }
      for (int i = 0; i < n; i++) if (A0.kind == C_ALLREDUCE || i == A0.root) xput(c->members[i], I.a[i]->rb, acc.data(), acc.size());
      break; }
    case C_RS: case C_RSB: {
      long tot = 0; std::vector<long> cs(n); for (int i = 0; i < n; i++) { cs[i] = A0.rcs ? A0.rcs[i] : A0.rc; tot += cs[i]; }
      std::string acc; for (int i = 0; i < n; i++) { CollArgs &S = *I.a[i]; const void *s = S.sb == MPI_IN_PLACE ? S.rb : S.sb; if (i == 0) acc.assign((const char *)s, bytes(tot, S.rt)); else apply(&acc[0], s, tot, S.rt, S.op); }
      long off = 0; for (int i = 0; i < n; i++) { long b = bytes(cs[i], A0.rt); xput(c->members[i], I.a[i]->rb, acc.data() + off, b); off += b; }
      break; }
    case C_SPLIT: case C_DUP: {
      std::map<int, std::vector<std::pair<int, int>>> cl;
      for (int i = 0; i < n; i++) if (A0.kind == C_DUP) cl[0].push_back({i, i}); else if (I.a[i]->color != MPI_UNDEFINED) cl[I.a[i]->color].push_back({I.a[i]->key, i});
      for (int i = 0; i < n; i++) if (A0.kind == C_SPLIT && I.a[i]->color == MPI_UNDEFINED) *I.a[i]->out = MPI_COMM_NULL;
      for (auto &kv : cl) {
        std::stable_sort(kv.second.begin(), kv.second.end());
        CommCore *d = new CommCore(); d->id = cores.size(); cores.push_back(d); d->seq.assign(kv.second.size(), 0);
        for (auto &p : kv.second) d->members.push_back(c->members[p.second]);
        int j = 0; for (auto &p : kv.second) { Rank *save = cur; cur = ranks[c->members[p.second]]; *I.a[p.second]->out = mk(d, j++); cur = save; }
      }
      break; }
    case C_CREATE: {
      CommCore *d = new CommCore(); d->id = cores.size(); cores.push_back(d); d->members = *A0.grp; d->seq.assign(d->members.size(), 0);
      for (int i = 0; i < n; i++) { int j = -1; for (size_t k = 0; k < d->members.size(); k++) if (d->members[k] == c->members[i]) j = k;
        if (j < 0) *I.a[i]->out = MPI_COMM_NULL; else { Rank *save = cur; cur = ranks[c->members[i]]; *I.a[i]->out = mk(d, j); cur = save; } }
      break; }
    case C_ALLTOALL: {
      std::vector<std::string> snap(n); for (int i = 0; i < n; i++) snap[i].assign((const char *)I.a[i]->sb, bytes(I.a[i]->sc, I.a[i]->st) * n);
      for (int r = 0; r < n; r++) for (int i = 0; i < n; i++) { long b = snap[i].size() / n; xput(c->members[r], (char *)I.a[r]->rb + i * b, snap[i].data() + r * b, b); }
      break; }
  }
}
static int collective(MPI_Comm comm, CollArgs &A, const char *name) {
  boundary(); g_events++;
  int me; CommCore *c = core(comm, &me, name);
  long s = c->seq[me]++;
  CollInst &I = c->inst[s];
  if (I.a.empty()) { I.a.assign(c->members.size(), nullptr); I.vc.assign(NR, 0); }
  I.a[me] = &A; I.arrived++;
  { Op o; o.k = 'B'; o.a = c->id; o.b = (int)s; o.c = c->members.size(); rec(std::move(o)); }
  data_event_sync(); bump();
  cur->vc[cur->id]++; join(I.vc, cur->vc);
  if (I.arrived == (int)c->members.size()) { compute(c, I); I.done = true; }
  yield_point();
  CollInst *P = &I;
  block(name, [P]() { return P->done; });
  join(cur->vc, I.vc);
  if (++I.left == (int)c->members.size()) c->inst.erase(s);
  return MPI_SUCCESS;
}
#define EX extern "C"
#define BOTH(ret, name, params, call) EX ret P##name params; EX ret name params { return P##name call; } EX ret P##name params

BOTH(int, MPI_Barrier, (MPI_Comm c), (c)) { CollArgs A{}; A.kind = C_BARRIER; return collective(c, A, "MPI_Barrier"); }
BOTH(int, MPI_Bcast, (void *b, int n, MPI_Datatype t, int root, MPI_Comm c), (b, n, t, root, c)) { CollArgs A{}; A.kind = C_BCAST; A.rb = b; A.rc = n; A.rt = t; A.root = root; return collective(c, A, "MPI_Bcast"); }
BOTH(int, MPI_Gather, (const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm c), (sb, sc, st, rb, rc, rt, root, c)) { CollArgs A{}; A.kind = C_GATHER; A.sb = sb; A.sc = sc; A.st = st; A.rb = rb; A.rc = rc; A.rt = rt; A.root = root; return collective(c, A, "MPI_Gather"); }
BOTH(int, MPI_Gatherv, (const void *sb, int sc, MPI_Datatype st, void *rb, const int *rc, const int *ds, MPI_Datatype rt, int root, MPI_Comm c), (sb, sc, st, rb, rc, ds, rt, root, c)) { CollArgs A{}; A.kind = C_GATHERV; A.sb = sb; A.sc = sc; A.st = st; A.rb = rb; A.rcs = rc; A.dsp = ds; A.rt = rt; A.root = root; return collective(c, A, "MPI_Gatherv"); }
BOTH(int, MPI_Allgather, (const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, MPI_Comm c), (sb, sc, st, rb, rc, rt, c)) { CollArgs A{}; A.kind = C_ALLGATHER; A.sb = sb; A.sc = sc; A.st = st; A.rb = rb; A.rc = rc; A.rt = rt; return collective(c, A, "MPI_Allgather"); }
BOTH(int, MPI_Allgatherv, (const void *sb, int sc, MPI_Datatype st, void *rb, const int *rc, const int *ds, MPI_Datatype rt, MPI_Comm c), (sb, sc, st, rb, rc, ds, rt, c)) { CollArgs A{}; A.kind = C_ALLGATHERV; A.sb = sb; A.sc = sc; A.st = st; A.rb = rb; A.rcs = rc; A.dsp = ds; A.rt = rt; return collective(c, A, "MPI_Allgatherv"); }
BOTH(int, MPI_Scatterv, (const void *sb, const int *sc, const int *ds, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm c), (sb, sc, ds, st, rb, rc, rt, root, c)) { CollArgs A{}; A.kind = C_SCATTERV; A.sb = sb; A.rcs = sc; A.dsp = ds; A.st = st; A.rb = rb; A.rc = rc; A.rt = rt; A.root = root; return collective(c, A, "MPI_Scatterv"); }
BOTH(int, MPI_Scatter, (const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm c), (sb, sc, st, rb, rc, rt, root, c)) { CollArgs A{}; A.kind = C_SCATTER; A.sb = sb; A.sc = sc; A.st = st; A.rb = rb; A.rc = rc; A.rt = rt; A.root = root; return collective(c, A, "MPI_Scatter"); }
BOTH(int, MPI_Allreduce, (const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c), (sb, rb, n, t, op, c)) { CollArgs A{}; A.kind = C_ALLREDUCE; A.sb = sb; A.rb = rb; A.rc = n; A.rt = t; A.op = op; return collective(c, A, "MPI_Allreduce"); }
BOTH(int, MPI_Reduce, (const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c), (sb, rb, n, t, op, root, c)) { CollArgs A{}; A.kind = C_REDUCE; A.sb = sb; A.rb = rb; A.rc = n; A.rt = t; A.op = op; A.root = root;
  int me; core(c, &me, "MPI_Reduce"); if (sb == MPI_IN_PLACE && me != root) merr("MPI_Reduce", "MPI_IN_PLACE at a rank that is not the root");
  return collective(c, A, "MPI_Reduce"); }
BOTH(int, MPI_Reduce_scatter, (const void *sb, void *rb, const int *rc, MPI_Datatype t, MPI_Op op, MPI_Comm c), (sb, rb, rc, t, op, c)) { CollArgs A{}; A.kind = C_RS; A.sb = sb; A.rb = rb; A.rcs = rc; A.rt = t; A.op = op; return collective(c, A, "MPI_Reduce_scatter"); }
BOTH(int, MPI_Reduce_scatter_block, (const void *sb, void *rb, int rc, MPI_Datatype t, MPI_Op op, MPI_Comm c), (sb, rb, rc, t, op, c)) { CollArgs A{}; A.kind = C_RSB; A.sb = sb; A.rb = rb; A.rc = rc; A.rt = t; A.op = op; return collective(c, A, "MPI_Reduce_scatter_block"); }
BOTH(int, MPI_Alltoall, (const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, MPI_Comm c), (sb, sc, st, rb, rc, rt, c)) { CollArgs A{}; A.kind = C_ALLTOALL; A.sb = sb; A.sc = sc; A.st = st; A.rb = rb; A.rc = rc; A.rt = rt; return collective(c, A, "MPI_Alltoall"); }
BOTH(int, MPI_Comm_split, (MPI_Comm c, int color, int key, MPI_Comm *out), (c, color, key, out)) { CollArgs A{}; A.kind = C_SPLIT; A.color = color; A.key = key; A.out = out; return collective(c, A, "MPI_Comm_split"); }
BOTH(int, MPI_Comm_split_type, (MPI_Comm c, int type, int key, MPI_Info i, MPI_Comm *out), (c, type, key, i, out)) { CollArgs A{}; A.kind = C_SPLIT; A.color = type == MPI_UNDEFINED ? MPI_UNDEFINED : cur->id / opt.ppn; A.key = key; A.out = out; (void)i; return collective(c, A, "MPI_Comm_split_type"); }
BOTH(int, MPI_Comm_dup, (MPI_Comm c, MPI_Comm *out), (c, out)) { CollArgs A{}; A.kind = C_DUP; A.out = out; return collective(c, A, "MPI_Comm_dup"); }
BOTH(int, MPI_Comm_create, (MPI_Comm c, MPI_Group g, MPI_Comm *out), (c, g, out)) { CollArgs A{}; A.kind = C_CREATE; A.grp = &g->members; A.out = out; return collective(c, A, "MPI_Comm_create"); }
BOTH(int, MPI_Comm_free, (MPI_Comm *c), (c)) {
  boundary(); int me; CommCore *k = core(*c, &me, "MPI_Comm_free"); if (k == world) merr("MPI_Comm_free", "MPI_COMM_WORLD");
  k->handles--; cur->comms_live--; (*c)->magic = 0; *c = MPI_COMM_NULL; return MPI_SUCCESS; }
BOTH(int, MPI_Comm_size, (MPI_Comm c, int *n), (c, n)) { int me; *n = core(c, &me, "MPI_Comm_size")->members.size(); return MPI_SUCCESS; }
BOTH(int, MPI_Comm_rank, (MPI_Comm c, int *r), (c, r)) { core(c, r, "MPI_Comm_rank"); return MPI_SUCCESS; }
BOTH(int, MPI_Comm_group, (MPI_Comm c, MPI_Group *g), (c, g)) { int me; CommCore *k = core(c, &me, "MPI_Comm_group"); *g = new ompi_group_t{k->members}; return MPI_SUCCESS; }
BOTH(int, MPI_Group_incl, (MPI_Group g, int n, const int *rk, MPI_Group *out), (g, n, rk, out)) { ompi_group_t *o = new ompi_group_t(); for (int i = 0; i < n; i++) o->members.push_back(g->members[rk[i]]); *out = o; return MPI_SUCCESS; }
BOTH(int, MPI_Group_free, (MPI_Group *g), (g)) { delete *g; *g = nullptr; return MPI_SUCCESS; }
BOTH(int, MPI_Group_size, (MPI_Group g, int *n), (g, n)) { *n = g->members.size(); return MPI_SUCCESS; }
BOTH(int, MPI_Group_translate_ranks, (MPI_Group a, int n, const int *ra, MPI_Group b, int *rb), (a, n, ra, b, rb)) { for (int i = 0; i < n; i++) { rb[i] = MPI_UNDEFINED; for (size_t j = 0; j < b->members.size(); j++) if (b->members[j] == a->members[ra[i]]) rb[i] = j; } return MPI_SUCCESS; }
BOTH(int, MPI_Comm_compare, (MPI_Comm a, MPI_Comm b, int *r), (a, b, r)) { int x; CommCore *p = core(a, &x, "cmp"), *q = core(b, &x, "cmp"); *r = p == q ? MPI_IDENT : p->members == q->members ? MPI_CONGRUENT : MPI_UNEQUAL; return MPI_SUCCESS; }
BOTH(int, MPI_Init, (int *a, char ***b), (a, b)) { (void)a; (void)b; boundary(); return MPI_SUCCESS; }
BOTH(int, MPI_Init_thread, (int *a, char ***b, int req, int *prov), (a, b, req, prov)) { (void)a; (void)b; boundary(); *prov = req; return MPI_SUCCESS; }
BOTH(int, MPI_Initialized, (int *f), (f)) { *f = 1; return MPI_SUCCESS; }
BOTH(int, MPI_Finalize, (void), ()) { boundary(); return MPI_SUCCESS; }
BOTH(int, MPI_Abort, (MPI_Comm c, int e), (c, e)) { (void)c; fail("exit", "MPI_Abort(%d)", e); }
BOTH(int, MPI_Type_contiguous, (int n, MPI_Datatype t, MPI_Datatype *d), (n, t, d)) { if (n != 3 || t != MPI_INT) merr("MPI_Type_contiguous", "only three MPI_INT"); *d = (MPI_Datatype)&contiguous3; return MPI_SUCCESS; }
BOTH(int, MPI_Type_commit, (MPI_Datatype *d), (d)) { (void)d; return MPI_SUCCESS; }
BOTH(int, MPI_Type_size, (MPI_Datatype t, int *s), (t, s)) { *s = ti_of(t, "MPI_Type_size").size; return MPI_SUCCESS; }
int type_size_of(MPI_Datatype t) { return ti_of(t, "size").size; }
BOTH(double, MPI_Wtime, (void), ()) { boundary(); cur->clockrng = cur->clockrng * 6364136223846793005ull + 1442695040888963407ull; cur->clock += 0.051 + ((cur->clockrng >> 33) % 1000) * 1e-4; return cur->clock; }
BOTH(double, MPI_Wtick, (void), ()) { return 1e-9; }
BOTH(int, MPI_Get_processor_name, (char *n, int *l), (n, l)) { sprintf(n, "node%d", cur->id / opt.ppn); *l = strlen(n); return MPI_SUCCESS; }
BOTH(int, MPI_Info_create, (MPI_Info *i), (i)) { *i = new ompi_info_t(); return MPI_SUCCESS; }
BOTH(int, MPI_Info_set, (MPI_Info i, const char *k, const char *v), (i, k, v)) { i->kv[k] = v; return MPI_SUCCESS; }
BOTH(int, MPI_Info_get, (MPI_Info i, const char *k, int n, char *v, int *f), (i, k, n, v, f)) {
  *f = 0; if (i == MPI_INFO_NULL || !i) { merr("MPI_Info_get", "null info"); }
  auto it = i->kv.find(k); if (it == i->kv.end()) return MPI_SUCCESS; *f = 1; strncpy(v, it->second.c_str(), n); v[n] = 0; return MPI_SUCCESS; }
BOTH(int, MPI_Info_free, (MPI_Info *i), (i)) { delete *i; *i = MPI_INFO_NULL; return MPI_SUCCESS; }

// ---------------------------------------------------------------- point to point
struct Posted { ompi_request_t *r; };
static std::map<std::pair<int, int>, std::list<ompi_request_t *>> posted;      // (comm, dst)
static std::map<std::pair<int, int>, std::list<Msg *>> unexpected;             // (comm, dst)
struct Transfer { Msg *m; ompi_request_t *r; };
static std::vector<Transfer> transfers;
static int serials = 0;
static std::vector<void *> pool_lifo;

// the k-th place for a request whose address has the byte sum home (modulo 256)
static char *const REQ_AREA = (char *)0x200000000000L; static const long REQ_SIZE = 1L << 25;
static bool req_placed(void *r) { return (char *)r >= REQ_AREA && (char *)r < REQ_AREA + REQ_SIZE; }
void place_request(int home, int k) {
  static std::vector<char *> at[256];
  if (at[0].empty()) {
    if (mmap(REQ_AREA, REQ_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != REQ_AREA) fail("script", "no room for requests");
    auto sum = [](char *a) { unsigned char s = 0; for (size_t i = 0; i < sizeof a; i++) s += ((unsigned char *)&a)[i]; return s; };
    for (long o = 0; o < REQ_SIZE; o += 1024) { char *best = nullptr; for (int j = 0; j < 32; j++) { char *a = REQ_AREA + o + 16 * j; if (!best || at[sum(a)].size() < at[sum(best)].size()) best = a; } at[sum(best)].push_back(best); }
  }
  cur->next_req = at[home].at(cur->id * 8 + k);
}
static ompi_request_t *newreq() {
  ompi_request_t *r = nullptr;
  if (cur->next_req) { r = (ompi_request_t *)cur->next_req; cur->next_req = nullptr; if (r->magic == MAGIC) fail("script", "request value in use"); }
  else if (opt.reqaddr == 1 && !pool_lifo.empty()) { r = (ompi_request_t *)pool_lifo.back(); pool_lifo.pop_back(); }
  else if (opt.reqaddr == 2) {       // addresses that differ but have the same byte sum
    static char *area = nullptr; static long n = 0;
    if (!area) { area = (char *)aligned_alloc(1 << 24, 1 << 26); }
    // byte sum of (x<<8 | (256-x)) style addresses: offset = (i << 8) + (256 - i) multiples of 16 kept by scaling
    long i = n++ % 4096; long hi = i / 16, lo = (i % 16);
    r = (ompi_request_t *)(area + hi * 65536 + lo * 4096 + ((16 - lo) & 15) * 256);
  } else r = (ompi_request_t *)malloc(sizeof(ompi_request_t));
  new (r) ompi_request_t();
  r->magic = MAGIC; r->rank = cur->id; r->serial = ++serials; r->hasvc = false; cur->reqs_live++;
  return r;
}
static void freereq(ompi_request_t *r) {
  ranks[r->rank]->reqs_live--; r->magic = 0; r->vc.clear(); r->vc.shrink_to_fit();
  if (req_placed(r)) ; else if (opt.reqaddr == 1) pool_lifo.push_back(r); else if (opt.reqaddr == 0) free(r);
}
static void rec_msg(char k, ompi_request_t *r, CommCore *c, int peer, int tag) {
  long off = 0; Region *g = r->len ? data_region(r->buf, r->len, &off, true) : nullptr;
  Op o; o.k = k; o.len = r->len; if (g) { if (k == 'I') { o.r1 = g->id; o.o1 = off; } else { o.r0 = g->id; o.o0 = off; } }
  o.a = peer; o.b = tag; o.c = c->id; o.d = r->serial; rec(std::move(o)); r->opidx = opt.record && cur->recording ? (int)cur->prog.size() - 1 : -1;
}
static bool matches(ompi_request_t *r, Msg *m) { return (r->peer == MPI_ANY_SOURCE || r->peer == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag); }
static void post_recv(ompi_request_t *r) {
  CommCore *c = r->comm;
  auto key = std::make_pair(c->id, r->rank);
  auto &u = unexpected[key];
  for (auto it = u.begin(); it != u.end(); ++it) if (matches(r, *it)) { transfers.push_back({*it, r}); u.erase(it); return; }
  posted[key].push_back(r);
}
static void post_send(ompi_request_t *s, int dst) {
  Msg *m = new Msg(); m->src = -1; m->tag = s->tag; m->comm = s->comm->id; m->len = s->len; m->buf = (const char *)s->buf; m->sreq = s;
  for (size_t i = 0; i < s->comm->members.size(); i++) if (s->comm->members[i] == s->rank) m->src = i;
  m->dst = dst; m->vc = cur->vc; m->serial = s->serial;
  m->eager = opt.net == "eager" ? true : opt.net == "rdv" ? false : rnd() % 2;
  if (m->eager) { m->copy.assign(m->buf, m->len); s->done = true; }
  int wdst = s->comm->members[dst];
  auto key = std::make_pair(s->comm->id, wdst);
  auto &p = posted[key];
  for (auto it = p.begin(); it != p.end(); ++it) if (matches(*it, m)) { transfers.push_back({m, *it}); p.erase(it); return; }
  unexpected[key].push_back(m);
}
bool net_pending() { return !transfers.empty(); }
bool net_step() {
  if (transfers.empty()) return false;
  int i = rnd() % transfers.size();
  Transfer t = transfers[i]; transfers.erase(transfers.begin() + i);
  if (t.m->len > t.r->len) { fail("mpierror", "message of %zu bytes truncated to %zu (from rank %d to rank %d tag %d)", t.m->len, t.r->len, t.m->src, t.m->dst, t.m->tag); }
  Rank *save = cur; cur = ranks[t.r->rank];
  const char *src = t.m->eager ? t.m->copy.data() : t.m->buf;
  if (t.m->len) { range_write(t.r->buf, t.m->len); memmove(t.r->buf, src, t.m->len); }
  cur = save;
  t.r->done = true; t.r->got = t.m->len; t.r->gotsrc = t.m->src; t.r->gottag = t.m->tag; t.r->vc = t.m->vc; t.r->hasvc = true;
  if (t.r->opidx >= 0) { Op &o = ranks[t.r->rank]->prog[t.r->opidx]; if (o.a < 0) o.a = t.r->comm->members[t.m->src]; if (o.b < 0) o.b = t.m->tag; }   // wildcards: what was matched
  if (!t.m->eager) t.m->sreq->done = true;
  delete t.m;
  progress_made();
  return true;
}
static ompi_request_t *mkreq(int kind, const void *b, int n, MPI_Datatype t, int peer, int tag, MPI_Comm comm, const char *f) {
  int me; CommCore *c = core(comm, &me, f);
  if (n < 0) merr(f, "negative count");
  if (peer != MPI_ANY_SOURCE && peer != MPI_PROC_NULL && (peer < 0 || peer >= (int)c->members.size())) merr(f, "invalid rank");
  if (tag < 0 && tag != MPI_ANY_TAG) merr(f, "invalid tag");
  ompi_request_t *r = newreq(); r->kind = kind; r->buf = (void *)b; r->len = (size_t)n * ti_of(t, f).size; r->peer = peer; r->tag = tag; r->comm = c; r->active = true; r->done = false; r->persistent = false;
  return r;
}
BOTH(int, MPI_Isend, (const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm comm, MPI_Request *q), (b, n, t, dst, tag, comm, q)) {
  boundary(); g_events++; ompi_request_t *r = mkreq(0, b, n, t, dst, tag, comm, "MPI_Isend"); range_read(b, r->len);
  rec_msg('I', r, r->comm, r->comm->members[dst], tag); data_event_sync(); cur->vc[cur->id]++; post_send(r, dst); bump(); *q = r; yield_point(); return MPI_SUCCESS; }
BOTH(int, MPI_Irecv, (void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Request *q), (b, n, t, src, tag, comm, q)) {
  boundary(); g_events++; ompi_request_t *r = mkreq(1, b, n, t, src, tag, comm, "MPI_Irecv"); range_write(b, r->len);
  rec_msg('V', r, r->comm, src < 0 ? src : r->comm->members[src], tag); data_event_sync(); post_recv(r); bump(); *q = r; yield_point(); return MPI_SUCCESS; }
static void finish(ompi_request_t *r, MPI_Status *st) {
  if (r->hasvc) join(cur->vc, r->vc);
  if (st) { memset(st, 0, sizeof *st); st->MPI_SOURCE = r->gotsrc; st->MPI_TAG = r->gottag; st->_ucount = r->got; }
}
static void rec_complete(std::vector<int> &&l) { if (l.empty()) return; Op o; o.k = 'A'; o.list = std::move(l); rec(std::move(o)); data_event_sync(); cur->vc[cur->id]++; }
static ompi_request_t *live(MPI_Request q, const char *f) {
  if (q == MPI_REQUEST_NULL || !q) return nullptr;
  if (q->magic != MAGIC) merr(f, "invalid or freed request");
  if (q->rank != cur->id) merr(f, "request of another rank");
  return q;
}
static void retire(MPI_Request *q) { ompi_request_t *r = *q; if (r->persistent) { r->active = false; } else { freereq(r); *q = MPI_REQUEST_NULL; } }
BOTH(int, MPI_Waitall, (int n, MPI_Request *q, MPI_Status *st), (n, q, st)) {
  boundary(); g_events++;
  std::vector<int> l;
  for (int i = 0; i < n; i++) if (ompi_request_t *r = live(q[i], "MPI_Waitall")) if (r->active) l.push_back(r->serial);
  yield_point();
  block("MPI_Waitall", [=]() { for (int i = 0; i < n; i++) { ompi_request_t *r = q[i]; if (r != MPI_REQUEST_NULL && r && r->magic == MAGIC && r->active && !r->done) return false; } return true; });
  for (int i = 0; i < n; i++) if (ompi_request_t *r = live(q[i], "MPI_Waitall")) if (r->active) { finish(r, st == MPI_STATUSES_IGNORE ? nullptr : &st[i]); retire(&q[i]); }
  rec_complete(std::move(l)); bump();
  return MPI_SUCCESS; }
BOTH(int, MPI_Wait, (MPI_Request *q, MPI_Status *st), (q, st)) { return PMPI_Waitall(1, q, st == MPI_STATUS_IGNORE ? MPI_STATUSES_IGNORE : st); }
BOTH(int, MPI_Testall, (int n, MPI_Request *q, int *flag, MPI_Status *st), (n, q, flag, st)) {
  boundary(); g_events++; yield_point();
  std::vector<int> l; bool all = true;
  for (int i = 0; i < n; i++) if (ompi_request_t *r = live(q[i], "MPI_Testall")) if (r->active) { if (!r->done) all = false; else l.push_back(r->serial); }
  *flag = all; if (!all) return MPI_SUCCESS;
  for (int i = 0; i < n; i++) if (ompi_request_t *r = live(q[i], "MPI_Testall")) if (r->active) { finish(r, st == MPI_STATUSES_IGNORE ? nullptr : &st[i]); retire(&q[i]); }
  rec_complete(std::move(l)); bump();
  return MPI_SUCCESS; }
BOTH(int, MPI_Test, (MPI_Request *q, int *flag, MPI_Status *st), (q, flag, st)) { return PMPI_Testall(1, q, flag, st == MPI_STATUS_IGNORE ? MPI_STATUSES_IGNORE : st); }
static int anyof(int n, MPI_Request *q, int *idx, MPI_Status *st, bool *none) {
  std::vector<int> c; *none = true;
  for (int i = 0; i < n; i++) if (ompi_request_t *r = live(q[i], "MPI_Waitany")) if (r->active) { *none = false; if (r->done) c.push_back(i); }
  if (c.empty()) return 0;
  int i = c[rnd() % c.size()]; std::vector<int> l{q[i]->serial};
  finish(q[i], st == MPI_STATUS_IGNORE ? nullptr : st); retire(&q[i]); rec_complete(std::move(l)); bump(); *idx = i; return 1;
}
BOTH(int, MPI_Waitany, (int n, MPI_Request *q, int *idx, MPI_Status *st), (n, q, idx, st)) {
  boundary(); g_events++; bool none; yield_point();
  block("MPI_Waitany", [=]() { bool act = false; for (int i = 0; i < n; i++) { ompi_request_t *r = q[i]; if (r != MPI_REQUEST_NULL && r && r->magic == MAGIC && r->active) { act = true; if (r->done) return true; } } return !act; });
  *idx = MPI_UNDEFINED; anyof(n, q, idx, st, &none); return MPI_SUCCESS; }
BOTH(int, MPI_Testany, (int n, MPI_Request *q, int *idx, int *flag, MPI_Status *st), (n, q, idx, flag, st)) {
  boundary(); g_events++; yield_point(); bool none; *idx = MPI_UNDEFINED; *flag = anyof(n, q, idx, st, &none) || none; return MPI_SUCCESS; }
BOTH(int, MPI_Waitsome, (int n, MPI_Request *q, int *oc, int *ids, MPI_Status *st), (n, q, oc, ids, st)) {
  int i; int r = PMPI_Waitany(n, q, &i, st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st); if (i == MPI_UNDEFINED) *oc = MPI_UNDEFINED; else { *oc = 1; ids[0] = i; } return r; }
BOTH(int, MPI_Testsome, (int n, MPI_Request *q, int *oc, int *ids, MPI_Status *st), (n, q, oc, ids, st)) {
  int i, f; int r = PMPI_Testany(n, q, &i, &f, st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st); if (!f) *oc = 0; else if (i == MPI_UNDEFINED) *oc = MPI_UNDEFINED; else { *oc = 1; ids[0] = i; } return r; }
BOTH(int, MPI_Send, (const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c), (b, n, t, dst, tag, c)) { MPI_Request q; PMPI_Isend(b, n, t, dst, tag, c, &q); return PMPI_Waitall(1, &q, MPI_STATUSES_IGNORE); }
BOTH(int, MPI_Recv, (void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st), (b, n, t, src, tag, c, st)) { MPI_Request q; PMPI_Irecv(b, n, t, src, tag, c, &q); return PMPI_Waitall(1, &q, st == MPI_STATUS_IGNORE ? MPI_STATUSES_IGNORE : st); }
BOTH(int, MPI_Recv_init, (void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *q), (b, n, t, src, tag, c, q)) { boundary(); ompi_request_t *r = mkreq(1, b, n, t, src, tag, c, "MPI_Recv_init"); r->persistent = true; r->active = false; *q = r; return MPI_SUCCESS; }
BOTH(int, MPI_Send_init, (const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q), (b, n, t, dst, tag, c, q)) { boundary(); ompi_request_t *r = mkreq(0, b, n, t, dst, tag, c, "MPI_Send_init"); r->persistent = true; r->active = false; *q = r; return MPI_SUCCESS; }
BOTH(int, MPI_Start, (MPI_Request *q), (q)) {
  boundary(); ompi_request_t *r = live(*q, "MPI_Start"); if (!r || !r->persistent) merr("MPI_Start", "not a persistent request"); if (r->active) merr("MPI_Start", "request is active"); cur->ustarts.push_back(r);
  r->active = true; r->done = false; r->hasvc = false; r->serial = ++serials;
  rec_msg(r->kind ? 'V' : 'I', r, r->comm, r->peer < 0 ? r->peer : r->comm->members[r->peer], r->tag); data_event_sync();
  if (r->kind) post_recv(r); else { cur->vc[cur->id]++; post_send(r, r->peer); } bump(); yield_point(); return MPI_SUCCESS; }
BOTH(int, MPI_Startall, (int n, MPI_Request *q), (n, q)) { for (int i = 0; i < n; i++) PMPI_Start(&q[i]); return MPI_SUCCESS; }
BOTH(int, MPI_Request_free, (MPI_Request *q), (q)) {
  boundary(); ompi_request_t *r = live(*q, "MPI_Request_free"); if (!r) merr("MPI_Request_free", "null request"); if (r->active && !r->done) merr("MPI_Request_free", "request still active");
  freereq(r); *q = MPI_REQUEST_NULL; return MPI_SUCCESS; }
BOTH(int, MPI_Request_get_status, (MPI_Request q, int *f, MPI_Status *st), (q, f, st)) { boundary(); g_events++; yield_point(); ompi_request_t *r = live(q, "MPI_Request_get_status"); *f = !r || !r->active || r->done; if (r && r->active && r->done && st) { memset(st, 0, sizeof *st); st->MPI_SOURCE = r->gotsrc; st->MPI_TAG = r->gottag; st->_ucount = r->got; } return MPI_SUCCESS; }
int mpi_unmatched() { int n = transfers.size(); for (auto &p : posted) n += p.second.size(); for (auto &u : unexpected) n += u.second.size(); return n; }
