// Scenario interpreter: reads a scenario, runs every rank's script against its own copy of the
// library under test and writes what was observed (programs, API log, values, leftovers) as JSON.
#include "sim.h"
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>

void boundary(); void progress_made(); void world_init(int); void schedule(); extern "C" void heap_guards(); void mpi_world_init();
int comm_core_id(MPI_Comm); std::vector<int> comm_members(MPI_Comm); int mpi_unmatched(); int shm_live();
extern "C" { extern long shm_created, shm_destroyed; }
using std::string; using std::vector;

static string result_path; static bool written = false;
static vector<string> logv; static long logseq = 0;
static string jesc(const string &s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static vector<vector<string>> snaps;      // leftovers reported by 'snap'
static long badvals = 0, touched = 0; static string badfirst, touchedfirst;
static int logvals = 0, logapi = 0;

struct Coll {
  int id; string type = "allreduce", iface = "mpi"; long count = 1; string dt = "long", op = "sum"; int root = 0, comm = 0; bool inplace = false; string nonroot = "buf";
  vector<int> counts, displs; std::map<string, string> info; int shift = 0; bool hasinfo = false;
};
struct CollRank { MPI_Request req; int handle = -1; Region *sreg = nullptr, *rreg = nullptr; char *s = nullptr, *r = nullptr; bool inited = false; MPI_Info info = MPI_INFO_NULL; bool registered = false; vector<int> counts, displs; };
struct PerRank { std::map<int, MPI_Comm> comms; std::map<int, CollRank> colls; std::map<string, void *> fn; string script; vector<vector<string>> ops; std::map<int, std::pair<Region *, char *>> ubuf; std::map<int, MPI_Request> ureq; bool f08 = false; std::map<int, long> urlen; std::map<int, bool> act; std::map<int, std::pair<int, int>> usrc; };
static std::map<int, Coll> colls; static vector<PerRank> pr; static vector<string> libs;
static string cur_op[64];

static string opjson(const Op &o) {
  char b[400];
  int n = snprintf(b, sizeof b, "[\"%c\",%d,%ld,%d,%ld,%d,%ld,%ld,%d,%d,%d,%d,%d", o.k, o.r0, o.o0, o.r1, o.o1, o.r2, o.o2, o.len, o.a, o.b, o.c, o.d, o.esz);
  string s(b, n); s += ",[";
  for (size_t i = 0; i < o.list.size(); i++) s += (i ? "," : "") + std::to_string(o.list[i]);
  return s + "]]";
}
void write_result(const char *kind, const char *msg) {
  if (written) return;
  written = true;
  string o = "{\"outcome\":\"" + string(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"n\":" + std::to_string(NR);
  o += ",\"at\":[";
  for (int i = 0; i < NR; i++) o += string(i ? "," : "") + "\"" + jesc(cur_op[i]) + "\"";
  o += "],\"bad\":" + std::to_string(badvals) + ",\"badfirst\":\"" + jesc(badfirst) + "\"";
  o += ",\"touched\":" + std::to_string(touched) + ",\"touchedfirst\":\"" + jesc(touchedfirst) + "\"";
  o += ",\"events\":" + std::to_string(g_events);
  o += ",\"shm\":[" + std::to_string(shm_created) + "," + std::to_string(shm_destroyed) + "," + std::to_string(shm_live()) + "]";
  o += ",\"live\":[";
  for (int i = 0; i < NR && i < (int)ranks.size(); i++) { Rank *r = ranks[i]; o += string(i ? "," : "") + "[" + std::to_string(r->heap_live) + "," + std::to_string(r->heap.size()) + "," + std::to_string(r->attaches) + "," + std::to_string(r->comms_live) + "," + std::to_string(r->reqs_live) + "]"; }
  o += "],\"unmatched\":" + std::to_string(mpi_unmatched());
  o += ",\"regions\":[";
  for (size_t i = 0; i < regions.size(); i++) { Region *g = regions[i]; o += string(i ? "," : "") + "[" + std::to_string((int)g->kind) + "," + std::to_string(g->size) + "," + std::to_string(g->owner) + "," + std::to_string(g->coll) + "," + std::to_string(g->role) + "," + std::to_string((int)g->inside) + "]"; }
  o += "],\"progs\":[";
  for (int i = 0; i < NR && i < (int)ranks.size(); i++) { o += i ? ",\n[" : "[";
    auto &p = ranks[i]->prog; for (size_t j = 0; j < p.size(); j++) { if (j) o += ","; o += opjson(p[j]); } o += "]"; }
  o += "],\"log\":[";
  for (size_t i = 0; i < logv.size(); i++) { if (i) o += ",\n"; o += logv[i]; }
  o += "]}\n";
  FILE *f = fopen(result_path.c_str(), "w"); if (f) { fwrite(o.data(), 1, o.size(), f); fclose(f); }
}
void place_request(int home, int k);
static void lg(const string &s) { if (logapi) logv.push_back("[" + std::to_string(cur->id) + "," + s + "]"); }

static MPI_Datatype dtof(const string &s) { if (s == "int") return MPI_INT; if (s == "long") return MPI_LONG; if (s == "float") return MPI_FLOAT; if (s == "double") return MPI_DOUBLE; if (s == "char") return MPI_CHAR; if (s == "byte") return MPI_BYTE; if (s == "short") return MPI_SHORT; if (s == "ull") return MPI_UNSIGNED_LONG_LONG; if (s == "complex") return MPI_C_DOUBLE_COMPLEX; if (s == "trip") { MPI_Datatype t; PMPI_Type_contiguous(3, MPI_INT, &t); PMPI_Type_commit(&t); return t; }
  if (s == "f_real") return MPI_REAL; if (s == "f_double") return MPI_DOUBLE_PRECISION; if (s == "f_real4") return MPI_REAL4; if (s == "f_real8") return MPI_REAL8; if (s == "f_integer") return MPI_INTEGER; if (s == "f_integer4") return MPI_INTEGER4; if (s == "f_integer8") return MPI_INTEGER8;
  fprintf(stderr, "dt %s\n", s.c_str()); exit(2); }
static MPI_Op opof(const string &s) { if (s == "sum") return MPI_SUM; if (s == "max") return MPI_MAX; if (s == "min") return MPI_MIN; fprintf(stderr, "op\n"); exit(2); }
static int vkind(const string &s) { // 0 int 1 long 2 float 3 double 4 raw
  if (s == "int" || s == "f_integer" || s == "f_integer4") return 0; if (s == "long" || s == "f_integer8") return 1; if (s == "float" || s == "f_real" || s == "f_real4") return 2; if (s == "double" || s == "f_real8" || s == "f_double") return 3; return 4; }

static uint64_t mix(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ (x >> 31); }
struct V2 { long hi, lo; };
static V2 val(const Coll &c, int rank, int k, long i) {
  uint64_t h = mix(mix(opt.seed * 1000003 + c.id * 7919 + k) * 31 + rank * 1000033ull + i);
  return V2{(long)(h % 65521) + 1, (long)((h >> 20) % 65521) + 1};
}
static void enc(int vk, int esz, void *p, V2 v) {
  switch (vk) {
    case 0: { int x = (int)v.hi; memcpy(p, &x, 4); break; }
    case 1: { long x = (v.hi << 32) + v.lo; memcpy(p, &x, 8); break; }
    case 2: { float x = v.hi; memcpy(p, &x, 4); break; }
    case 3: { double x = v.hi * 4194304.0 + v.lo; memcpy(p, &x, 8); break; }
    default: { uint64_t x = mix(v.hi * 77777 + v.lo); for (int i = 0; i < esz; i++) { unsigned char b = (x >> (8 * (i % 8))) & 255; ((unsigned char *)p)[i] = b == 0x5A ? 0x5B : b; } }
  }
}
static V2 dec(int vk, int esz, const void *p) {
  switch (vk) {
    case 0: { int x; memcpy(&x, p, 4); return V2{x, 0}; }
    case 1: { long x; memcpy(&x, p, 8); return V2{x >> 32, x & 0xffffffffl}; }
    case 2: { float x; memcpy(&x, p, 4); return (x == (float)(long)x && x > -2e9f && x < 2e9f) ? V2{(long)x, 0} : V2{-7, 0}; }
    case 3: { double x; memcpy(&x, p, 8); if (!(x > -1e15 && x < 1e15)) return V2{-7, -7}; double h = (double)(long)(x / 4194304.0); double l = x - h * 4194304.0; if (l != (double)(long)l || l < 0 || h < 0) return V2{-7, -7}; return V2{(long)h, (long)l}; }
    default: { unsigned long x = 0; for (int i = 0; i < esz; i++) x = x * 257 + ((const unsigned char *)p)[i]; return V2{(long)(x >> 34), (long)((x >> 4) & ((1 << 30) - 1)) ^ (long)(x & 15)}; }
  }
}
static V2 add(V2 a, V2 b) { return V2{a.hi + b.hi, a.lo + b.lo}; }

// lengths in elements
static bool isv(const Coll &c) { return c.type == "allgatherv" || c.type == "gatherv" || c.type == "scatterv" || c.type == "reduce_scatter"; }
static void expand(Coll &c, int n, vector<int> &counts, vector<int> &displs) {
  counts.assign(n, (int)c.count); displs.assign(n, 0);
  if (isv(c) && !c.counts.empty()) for (int i = 0; i < n; i++) counts[i] = c.counts[i % c.counts.size()];
  int o = 0; for (int i = 0; i < n; i++) { displs[i] = o; o += counts[i]; }
  if (!c.displs.empty()) for (int i = 0; i < n; i++) displs[i] = c.displs[i % c.displs.size()];
}
static long total(const vector<int> &a) { long s = 0; for (int x : a) s += x; return s; }
static long extent(const vector<int> &c, const vector<int> &d) { long s = 0; for (size_t i = 0; i < c.size(); i++) if (c[i]) s = std::max(s, (long)d[i] + c[i]); return s; }
static void sizes(Coll &c, const vector<int> &cn, const vector<int> &ds, int me, long *s, long *r) {
  const string &t = c.type;
  if (t == "allreduce" || t == "reduce") { *s = c.count; *r = c.count; }
  else if (t == "bcast") { *s = 0; *r = c.count; }
  else if (t == "allgatherv" || t == "allgather") { *s = cn[me]; *r = extent(cn, ds); }
  else if (t == "gatherv" || t == "gather") { *s = cn[me]; *r = extent(cn, ds); }
  else if (t == "scatterv" || t == "scatter") { *s = extent(cn, ds); *r = cn[me]; }
  else if (t == "reduce_scatter" || t == "reduce_scatter_block") { *s = total(cn); *r = cn[me]; }
  else { fprintf(stderr, "type %s\n", t.c_str()); exit(2); }
}
static bool rooted(const Coll &c) { return c.type == "reduce" || c.type == "gather" || c.type == "gatherv"; }
static bool rootsend(const Coll &c) { return c.type == "scatter" || c.type == "scatterv"; }

static void *fn(const char *name) {
  PerRank &p = pr[cur->id]; auto it = p.fn.find(name); if (it != p.fn.end()) return it->second;
  void *f = dlsym(cur->dl, name); if (!f) f = dlsym(RTLD_DEFAULT, name);
  if (!f) fail("nosym", "no function %s", name);
  return p.fn[name] = f;
}
// a test call is local: in some of them (option pollex) no other rank makes any progress until it returns
static const char *poll_name(const char *name) {
  if (opt.pollex && strstr(name, "_Test") && (int)(rnd() % 100) < opt.pollex) { poll_owner = cur->id; poll_steps = 0; }
  cur->incall = true;
  return name;
}
static void call_boundary() {
  if (cur) { cur->incall = false; if (poll_owner == cur->id) poll_owner = -1; else if (poll_owner >= 0) yield_point(); }
  boundary();
}
#define boundary call_boundary
#define CALL(T, name) ((T)fn(poll_name(name)))

static MPI_Comm commof(int id) { PerRank &p = pr[cur->id]; if (id == 0) return MPI_COMM_WORLD; auto it = p.comms.find(id); if (it == p.comms.end()) fail("script", "no communicator %d", id); return it->second; }

// also known after the user has freed the communicator
static vector<int> members_of(int id) { static std::map<std::pair<int, int>, vector<int>> known; auto k = std::make_pair(cur->id, id); if (id == 0 || pr[cur->id].comms.count(id)) return known[k] = comm_members(commof(id)); if (!known.count(k)) fail("script", "no communicator %d", id); return known[k]; }
static void mkbufs(Coll &c, CollRank &q) {
  if (q.sreg || q.rreg) return;
  auto mem = members_of(c.comm); int n = mem.size(); int me = std::find(mem.begin(), mem.end(), cur->id) - mem.begin();
  expand(c, n, q.counts, q.displs);
  long s, r; sizes(c, q.counts, q.displs, me, &s, &r);
  int esz = type_size_of(dtof(c.dt));
  string nm = "coll" + std::to_string(c.id);
  q.rreg = new_region(RK_USER, r * esz, cur->id, nm + ".recvbuf of rank " + std::to_string(cur->id)); q.rreg->coll = c.id; q.rreg->role = 1; q.r = map_region(q.rreg, false);
  memset(q.rreg->base, 0x5A, r * esz);
  if (!c.inplace && c.type != "bcast") { q.sreg = new_region(RK_USER, s * esz, cur->id, nm + ".sendbuf of rank " + std::to_string(cur->id)); q.sreg->coll = c.id; q.sreg->role = 0; q.s = map_region(q.sreg, false); memset(q.sreg->base, 0x33, s * esz); }
}
static int myrank1(MPI_Comm c) { int r; PMPI_Comm_rank(c, &r); return r; }
static int myrank(const Coll &c, int *n) { auto mem = members_of(c.comm); *n = mem.size(); return std::find(mem.begin(), mem.end(), cur->id) - mem.begin(); }

// user writes the data of iteration k
static void user_write(Coll &c, CollRank &q, int k) {
  boundary(); data_event_sync();
  int n, me = myrank(c, &n); int esz = type_size_of(dtof(c.dt)), vk = vkind(c.dt);
  long s, r; sizes(c, q.counts, q.displs, me, &s, &r);
  // poison the receive buffer
  memset(q.rreg->base, 0x5A, r * esz);
  { Op o; o.k = 'U'; o.r0 = q.rreg->id; o.len = r * esz; o.a = c.id; o.b = k; o.c = 2; rec(std::move(o)); }
  Region *src = c.inplace || c.type == "bcast" ? q.rreg : q.sreg;
  bool writes = !(c.type == "bcast" && me != c.root) && !(rootsend(c) && me != c.root);
  if (c.inplace && c.type == "reduce" && me != c.root) src = q.sreg ? q.sreg : q.rreg;
  if (writes) {
    long len = c.inplace || c.type == "bcast" ? r : s, base = 0;
    if (c.inplace && (c.type == "allgather" || c.type == "allgatherv")) { base = q.displs[me]; len = q.counts[me]; }
    string vs;
    for (long i = 0; i < len; i++) { V2 v = val(c, me, k, i); enc(vk, esz, src->base + (base + i) * esz, v); if (logvals) { V2 w = dec(vk, esz, src->base + (base + i) * esz); vs += (i ? ",[" : "[") + std::to_string(w.hi) + "," + std::to_string(w.lo) + "]"; } }
    Op o; o.k = 'U'; o.r0 = src->id; o.o0 = base * esz; o.len = len * esz; o.a = c.id; o.b = k; o.c = 1; o.d = me; o.esz = esz; rec(std::move(o));
    lg("\"uw\"," + std::to_string(c.id) + "," + std::to_string(k) + ",[" + vs + "]");
  } else lg("\"uw\"," + std::to_string(c.id) + "," + std::to_string(k) + ",[]");
  cur->vc[cur->id]++;
}
// what the result must be
static bool expected(Coll &c, CollRank &q, int me, int n, int k, long i, V2 *v) {
  const string &t = c.type; int esz = type_size_of(dtof(c.dt)), vk = vkind(c.dt);
  auto leaf = [&](int r, long j) { char b[16]; enc(vk, esz, b, val(c, r, k, j)); return dec(vk, esz, b); };
  auto sum = [&](long j) { V2 a{0, 0}; for (int r = 0; r < n; r++) a = add(a, leaf(r, j)); return a; };
  if (t == "allreduce" || (t == "reduce" && me == c.root)) { *v = sum(i); return true; }
  if (t == "bcast") { *v = leaf(c.root, i); return true; }
  if (t == "reduce_scatter" || t == "reduce_scatter_block") { long o = 0; for (int r = 0; r < me; r++) o += q.counts[r]; *v = sum(o + i); return true; }
  if (t == "allgather" || t == "allgatherv" || ((t == "gather" || t == "gatherv") && me == c.root)) { for (int r = 0; r < n; r++) if (i >= q.displs[r] && i < q.displs[r] + q.counts[r]) { *v = leaf(r, i - q.displs[r]); return true; } return false; }
  if (t == "scatter" || t == "scatterv") { *v = leaf(c.root, q.displs[me] + i); return true; }
  return false;
}
static void user_read(Coll &c, CollRank &q, int k) {
  boundary(); data_event_sync();
  int n, me = myrank(c, &n); int esz = type_size_of(dtof(c.dt)), vk = vkind(c.dt);
  long s, r; sizes(c, q.counts, q.displs, me, &s, &r);
  { Op o; o.k = 'K'; o.r0 = q.rreg->id; o.len = r * esz; o.a = c.id; o.b = k; o.c = 1; o.d = me; o.esz = esz; rec(std::move(o)); }
  if (q.sreg && s) { Op o; o.k = 'K'; o.r0 = q.sreg->id; o.len = s * esz; o.a = c.id; o.b = k; o.c = 0; o.d = me; o.esz = esz; rec(std::move(o)); }
  string vs;
  for (long i = 0; i < r; i++) {
    V2 g = dec(vk, esz, q.rreg->base + i * esz), e; bool has = expected(c, q, me, n, k, i, &e);
    bool ok;
    if (has) ok = g.hi == e.hi && g.lo == e.lo; else { ok = true; for (int b = 0; b < esz; b++) if ((unsigned char)q.rreg->base[i * esz + b] != 0x5A) ok = false; if (c.inplace && c.type == "reduce") ok = true; }
    if (!ok) { if (!badvals++) badfirst = "collective " + std::to_string(c.id) + " (" + c.type + ") iteration " + std::to_string(k) + " rank " + std::to_string(me) + " element " + std::to_string(i) + " got " + std::to_string(g.hi) + "/" + std::to_string(g.lo) + " want " + (has ? std::to_string(e.hi) + "/" + std::to_string(e.lo) : "untouched"); }
    if (logvals) vs += (i ? ",[" : "[") + std::to_string(g.hi) + "," + std::to_string(g.lo) + "]";
  }
  bool writes = !(c.type == "bcast") && !(rootsend(c) && me != c.root);
  if (q.sreg && writes) for (long i = 0; i < s; i++) { char b[16]; enc(vk, esz, b, val(c, me, k, i)); if (memcmp(b, q.sreg->base + i * esz, esz)) { if (!badvals++) badfirst = "sendbuf of collective " + std::to_string(c.id) + " (" + c.type + ") modified at rank " + std::to_string(me) + " element " + std::to_string(i); break; } }
  lg("\"ur\"," + std::to_string(c.id) + "," + std::to_string(k) + ",[" + vs + "]");
}

typedef int (*f_ar)(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*f_red)(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*f_bc)(void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*f_agv)(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*f_ag)(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*f_gv)(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*f_g)(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*f_sv)(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*f_rs)(const void *, void *, const int *, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*f_rsb)(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*x_ar)(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, int *);
typedef int (*x_h)(int);
typedef void (*p_ar)(const void *, void *, int *, MPI_Datatype *, MPI_Op *, MPI_Comm *, MPI_Info *, MPI_Request *, int *);
typedef void (*p_q)(MPI_Request *, int *); typedef void (*p_w)(MPI_Request *, MPI_Status *, int *);

extern "C" int MPIR_F08_MPI_IN_PLACE; int MPIR_F08_MPI_IN_PLACE;

static void do_init(Coll &c, CollRank &q) {
  mkbufs(c, q);
  int n, me = myrank(c, &n); MPI_Comm cm = commof(c.comm); MPI_Datatype dt = dtof(c.dt); MPI_Op op = opof(c.op);
  const void *sb = q.s; void *rb = q.r;
  if (c.inplace && (c.type != "reduce" || me == c.root)) sb = MPI_IN_PLACE;
  if (c.inplace && c.type == "reduce" && me != c.root) sb = q.r;
  if (rooted(c) && me != c.root && c.nonroot == "null" && !c.inplace) rb = nullptr;
  if (rootsend(c) && me != c.root && c.nonroot == "null") sb = nullptr;
  MPI_Info info = MPI_INFO_NULL;
  if (c.hasinfo) { PMPI_Info_create(&q.info); for (auto &kv : c.info) PMPI_Info_set(q.info, kv.first.c_str(), kv.second.c_str()); info = q.info; }
  int rc = 0;
  // count arrays live in plain memory of the caller and are clobbered after the call
  vector<int> cn = q.counts, ds = q.displs;
  const string &t = c.type;
  // counts, displacements, type and buffer of the gathered / scattered vector mean something at the root only:
  // elsewhere the caller may pass anything
  bool insig = c.nonroot == "insig" && me != c.root;
  const int *cp = cn.data(), *dp = ds.data(); MPI_Datatype rdt = dt; int rcnt = (int)c.count;
  int mycnt = cn.empty() ? 0 : cn[me];
  if (insig && (t == "gather" || t == "gatherv" || rootsend(c))) {
    cp = dp = nullptr; rdt = MPI_DATATYPE_NULL; rcnt = -5;
    if (rootsend(c)) sb = nullptr; else if (!c.inplace) rb = nullptr;
  }
  boundary();
  if (c.iface == "ext") {
    int *h = &q.handle; void *sv = (void *)sb; (void)sv;
    if (t == "allreduce") rc = CALL(int (*)(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, int *), "EXT_MPI_Allreduce_init")(sb, rb, c.count, dt, op, cm, info, h);
    else if (t == "reduce") rc = CALL(int (*)(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Info, int *), "EXT_MPI_Reduce_init")(sb, rb, c.count, dt, op, c.root, cm, info, h);
    else if (t == "bcast") rc = CALL(int (*)(void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, int *), "EXT_MPI_Bcast_init")(rb, c.count, dt, c.root, cm, info, h);
    else if (t == "allgatherv") rc = CALL(int (*)(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm, MPI_Info, int *), "EXT_MPI_Allgatherv_init")(sb, cn[me], dt, rb, cn.data(), ds.data(), dt, cm, info, h);
    else if (t == "allgather") rc = CALL(int (*)(void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Info, int *), "EXT_MPI_Allgather_init")(sv, c.count, dt, rb, c.count, dt, cm, info, h);
    else if (t == "gatherv") rc = CALL(int (*)(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm, MPI_Info, int *), "EXT_MPI_Gatherv_init")(sb, mycnt, dt, rb, cp, dp, rdt, c.root, cm, info, h);
    else if (t == "scatterv") rc = CALL(int (*)(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, int *), "EXT_MPI_Scatterv_init")(sb, cp, dp, rdt, rb, mycnt, dt, c.root, cm, info, h);
    else if (t == "reduce_scatter") rc = CALL(int (*)(const void *, void *, const int *, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, int *), "EXT_MPI_Reduce_scatter_init")(sb, rb, cn.data(), dt, op, cm, info, h);
    else if (t == "reduce_scatter_block") rc = CALL(int (*)(void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, int *), "EXT_MPI_Reduce_scatter_block_init")(sv, rb, c.count, dt, op, cm, info, h);
    else fail("script", "iface");
  } else if (c.iface == "f08" || c.iface == "f77") {
    int cnt = c.count, ierr = -99; const void *s2 = sb == MPI_IN_PLACE ? (void *)&MPIR_F08_MPI_IN_PLACE : sb;
    CALL(p_ar, c.iface == "f77" ? "mpi_allreduce_init_" : "mpi_allreduce_init_f08_")(s2, rb, &cnt, &dt, &op, &cm, &info, &q.req, &ierr); rc = ierr;
  } else if (t == "allreduce") rc = CALL(f_ar, "MPI_Allreduce_init")(sb, rb, c.count, dt, op, cm, info, &q.req);
  else if (t == "reduce") rc = CALL(f_red, "MPI_Reduce_init")(sb, rb, c.count, dt, op, c.root, cm, info, &q.req);
  else if (t == "bcast") rc = CALL(f_bc, "MPI_Bcast_init")(rb, c.count, dt, c.root, cm, info, &q.req);
  else if (t == "allgatherv") rc = CALL(f_agv, "MPI_Allgatherv_init")(sb, cn[me], dt, rb, cn.data(), ds.data(), dt, cm, info, &q.req);
  else if (t == "allgather") rc = CALL(f_ag, "MPI_Allgather_init")(sb, c.count, dt, rb, c.count, dt, cm, info, &q.req);
  else if (t == "gatherv") rc = CALL(f_gv, "MPI_Gatherv_init")(sb, mycnt, dt, rb, cp, dp, rdt, c.root, cm, info, &q.req);
  else if (t == "gather") rc = CALL(f_g, "MPI_Gather_init")(sb, c.count, dt, rb, rcnt, rdt, c.root, cm, info, &q.req);
  else if (t == "scatterv") rc = CALL(f_sv, "MPI_Scatterv_init")(sb, cp, dp, rdt, rb, mycnt, dt, c.root, cm, info, &q.req);
  else if (t == "scatter") rc = CALL(f_g, "MPI_Scatter_init")(sb, rcnt, rdt, rb, c.count, dt, c.root, cm, info, &q.req);
  else if (t == "reduce_scatter") rc = CALL(f_rs, "MPI_Reduce_scatter_init")(sb, rb, cn.data(), dt, op, cm, info, &q.req);
  else if (t == "reduce_scatter_block") rc = CALL(f_rsb, "MPI_Reduce_scatter_block_init")(sb, rb, c.count, dt, op, cm, info, &q.req);
  boundary();
  std::fill(cn.begin(), cn.end(), -12345); std::fill(ds.begin(), ds.end(), -12345);
  if (q.info != MPI_INFO_NULL) { PMPI_Info_free(&q.info); q.info = MPI_INFO_NULL; }
  q.inited = rc == 0;
  lg("\"init\"," + std::to_string(c.id) + "," + std::to_string(rc));
}
// was the user's data left alone while it is not owned by the library? (init, free, autotuning)
static uint64_t hashbuf(Region *g) { if (!g) return 0; uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < g->size; i++) h = (h ^ (unsigned char)g->base[i]) * 1099511628211ull; return h; }

static void do_blocking(Coll &c, CollRank &q) {
  mkbufs(c, q); int n, me = myrank(c, &n); MPI_Comm cm = commof(c.comm); MPI_Datatype dt = dtof(c.dt); MPI_Op op = opof(c.op);
  const void *sb = c.inplace ? MPI_IN_PLACE : q.s; int rc = 0; (void)me; boundary();
  if (c.iface == "f08" && c.type == "allreduce") { int cnt = c.count, ierr = -99; const void *s2 = sb == MPI_IN_PLACE ? (void *)&MPIR_F08_MPI_IN_PLACE : sb; ((void (*)(const void *, void *, int *, MPI_Datatype *, MPI_Op *, MPI_Comm *, int *))fn("mpi_allreduce_f08_"))(s2, q.r, &cnt, &dt, &op, &cm, &ierr); rc = ierr; }
  else if (c.type == "allreduce") rc = ((int (*)(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm))fn("MPI_Allreduce"))(sb, q.r, c.count, dt, op, cm);
  else if (c.type == "allgather") rc = ((int (*)(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm))fn("MPI_Allgather"))(sb, c.count, dt, q.r, c.count, dt, cm);
  else if (c.type == "reduce_scatter_block") rc = ((int (*)(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm))fn("MPI_Reduce_scatter_block"))(sb, q.r, c.count, dt, op, cm);
  else fail("script", "no blocking %s", c.type.c_str());
  boundary();
  if (rc) fail("rc", "blocking call returned %d", rc);
}

static void sync_all(const string &id) {     // harness-level rendezvous of all ranks (not an MPI call)
  static std::map<string, int> cnt; static std::map<string, VC> vcs;
  boundary();
  if (vcs[id].empty()) vcs[id].assign(NR, 0);
  cur->vc[cur->id]++; join(vcs[id], cur->vc);
  { Op o; o.k = 'B'; o.a = -1; o.b = atoi(id.c_str()); o.c = NR; rec(std::move(o)); }
  cnt[id]++; progress_made(); for (auto *r : ranks) r->spin_cnt = 0;
  int *p = &cnt[id];
  block("harness sync", [p]() { return *p >= NR; });
  join(cur->vc, vcs[id]);
}
static void unsuccessful_poll() { cur->spin_cnt++; cur->prio = -(long)(rnd() % 1000000); yield_point(); }

extern "C" { int vp_barrier_start = 1; }
// rounds of barriers of the code under test, counting on from an arbitrary value: program one letter per round
// (s socket, n node, digit d notification waiting for the d-th next process), how: w wait, t test repeatedly first
static void barriers(const string &prog, int base, const string &how) {
  static Region *g = nullptr;
  int n = NR, me = cur->id; typedef int (*F)(int, int, char *, char **, int *, int, int, int);
  F f = (F)dlsym(cur->dl, "vp_barrier"); if (!f) fail("noprobe", "the barriers are not accessible");
  if (!g) { g = new_region(RK_SHM, 4096 * (n + 1), 0, "flags"); for (size_t i = 0; i < g->size / 4; i++) ((int *)g->base)[i] = (int)((unsigned)base - 1u); }
  char *m = map_region(g, false); vector<char *> nodes; for (int i = 0; i < n; i++) nodes.push_back(m + 4096 * (1 + (me + i) % n));
  int cs = base, cn = base;
  for (size_t k = 0; k < prog.size(); k++) {
    char c = prog[k]; int kind = c == 's' || c == 'n' ? c : 'a', entry = kind == 'a' ? (me + c - '0') % n : 0; int *cnt = c == 'n' ? &cn : &cs;
    lg("\"enter\"," + std::to_string(k + 1));
    boundary();
    f(kind, 0, m, nodes.data(), cnt, me, n, entry); boundary();
    if (how[k % how.size()] == 't') while (f(kind, 1, m, nodes.data(), cnt, me, n, entry)) { boundary(); unsuccessful_poll(); }
    f(kind, 2, m, nodes.data(), cnt, me, n, entry); boundary();
    lg("\"leave\"," + std::to_string(k + 1));
    yield_point();
  }
}

static int quiet_[64];
#define quiet_pending quiet_[cur->id]
static void exec(vector<string> &w) {
  PerRank &P = pr[cur->id];
  const string &o = w[0];
  auto I = [&](int i) { return atoi(w[i].c_str()); };
  auto C = [&](int i) -> Coll & { auto it = colls.find(I(i)); if (it == colls.end()) fail("script", "no coll"); return it->second; };
  auto Q = [&](int i) -> CollRank & { return P.colls[I(i)]; };
  auto mark = [&](char k, int c, int x) { Op op; op.k = k; op.a = c; op.b = x; rec(std::move(op)); };
  auto reqs = [&](int from) { vector<MPI_Request> v; for (size_t i = from; i < w.size(); i++) v.push_back(w[i][0] == 'u' ? P.ureq[atoi(w[i].c_str() + 1)] : Q(i).req); return v; };
  auto putback = [&](int from, vector<MPI_Request> &v) { for (size_t i = from; i < w.size(); i++) if (w[i][0] == 'u') P.ureq[atoi(w[i].c_str() + 1)] = v[i - from]; else { if (Q(i).req != v[i - from]) fail("api", "the handle of a persistent request was changed by a completion call"); } };
  auto usync = [&](const string &t) { for (size_t i = 1; i < w.size(); i++) (void)t; };
  (void)usync;
  if (o == "lang") P.f08 = w[1] == "f";       // what follows goes through the Fortran 2008 interface where it offers it
  else if (o == "mpiinit") { boundary(); int rc, prov = -1; if (P.f08) { rc = -9; CALL(void (*)(int *), "mpi_init_f08_")(&rc); } else if (w.size() > 1) { rc = CALL(int (*)(int *, char ***, int, int *), "MPI_Init_thread")(nullptr, nullptr, MPI_THREAD_FUNNELED, &prov); if (prov != MPI_THREAD_FUNNELED) fail("api", "MPI_Init_thread provided %d", prov); } else rc = CALL(int (*)(int *, char ***), "MPI_Init")(nullptr, nullptr); if (rc) fail("rc", "MPI_Init returned %d", rc); boundary(); }
  else if (o == "setint") { int *p = (int *)dlsym(cur->dl, w[1].c_str()); if (p) *p = I(2); }
  else if (o == "mpifin") { boundary(); int rc = -9; if (P.f08) CALL(void (*)(int *), "mpi_finalize_f08_")(&rc); else rc = CALL(int (*)(), "MPI_Finalize")(); if (rc) fail("rc", "MPI_Finalize returned %d", rc); boundary(); }
  else if (o == "rec") { boundary(); cur->recording = I(1); }
  else if (o == "bufs") { mkbufs(C(1), Q(1)); }
  else if (o == "init") {
    Coll &c = C(1); CollRank &q = Q(1); mkbufs(c, q);
    uint64_t h1 = hashbuf(q.sreg), h2 = hashbuf(q.rreg); lg("\"initcall\"," + w[1]);
    boundary(); mark('i', c.id, 0); cur->inno = ++cur->inits; do_init(c, q); boundary(); cur->inno = 0; mark('i', c.id, 1);
    if (h1 != hashbuf(q.sreg) || h2 != hashbuf(q.rreg)) { if (!touched++) touchedfirst = string("init of ") + c.type + " changed the user's " + (h1 != hashbuf(q.sreg) ? "sendbuf" : "recvbuf") + " at rank " + std::to_string(cur->id); lg("\"touched\"," + w[1]); }
    if (!q.inited) fail("rc", "init of %s returned an error", c.type.c_str());
  } else if (o == "uw") { mkbufs(C(1), Q(1)); user_write(C(1), Q(1), I(2)); }
  else if (o == "ur") user_read(C(1), Q(1), I(2));
  else if (o == "start") { Coll &c = C(1); CollRank &q = Q(1); lg("\"start\"," + w[1]); P.act[c.id + 1] = true; mark('g', c.id, 0); int rc = 0; boundary();
    if (c.iface == "ext") rc = CALL(x_h, "EXT_MPI_Start")(q.handle); else if (c.iface == "f08") { int e = -9; CALL(p_q, "mpi_start_f08_")(&q.req, &e); rc = e; } else rc = CALL(int (*)(MPI_Request *), "MPI_Start")(&q.req);
    boundary(); if (rc) fail("rc", "start returned %d", rc); }
  else if (o == "startall") { vector<MPI_Request> v = reqs(1); for (size_t i = 1; i < w.size(); i++) { lg("\"start\"," + w[i]); P.act[I(i) + 1] = true; mark('g', I(i), 0); } boundary(); CALL(int (*)(int, MPI_Request *), "MPI_Startall")(v.size(), v.data()); boundary(); putback(1, v); }
  else if (o == "wait") { Coll &c = C(1); CollRank &q = Q(1); lg("\"waitcall\"," + w[1]); int rc = 0; boundary();
    if (c.iface == "ext") rc = CALL(x_h, "EXT_MPI_Wait")(q.handle); else if (c.iface == "f08") { int e = -9; MPI_Status st; CALL(p_w, "mpi_wait_f08_")(&q.req, &st, &e); rc = e; }
    else { MPI_Request k = q.req; rc = CALL(int (*)(MPI_Request *, MPI_Status *), "MPI_Wait")(&q.req, MPI_STATUS_IGNORE); if (k != q.req) fail("api", "MPI_Wait changed a persistent request handle"); }
    boundary(); mark('e', c.id, 0); lg("\"done\"," + w[1]); if (rc) fail("rc", "wait returned %d", rc); }
  else if (o == "test") { Coll &c = C(1); CollRank &q = Q(1); int flag = 0; long polls = 0;
    do { int rc = 0; boundary(); if (c.iface == "ext") flag = CALL(x_h, "EXT_MPI_Test")(q.handle); else rc = CALL(int (*)(MPI_Request *, int *, MPI_Status *), "MPI_Test")(&q.req, &flag, MPI_STATUS_IGNORE);
      boundary(); if (rc) fail("rc", "test returned %d", rc); if (flag) lg("\"done\"," + w[1]); else { if (polls++ < 3) lg("\"pending\"," + w[1]); unsuccessful_poll(); } if (polls > 30000) fail("hang", "MPI_Test never completes"); } while (!flag);
    mark('e', c.id, 0); }
  else if (o == "test1") { Coll &c = C(1); CollRank &q = Q(1); int flag = 0; boundary(); if (c.iface == "ext") flag = CALL(x_h, "EXT_MPI_Test")(q.handle); else CALL(int (*)(MPI_Request *, int *, MPI_Status *), "MPI_Test")(&q.req, &flag, MPI_STATUS_IGNORE); boundary(); if (flag) { mark('e', c.id, 0); lg("\"done\"," + w[1]); } else lg("\"pending\"," + w[1]); yield_point(); }
  else if (o == "call") {      // one raw call with everything it reported: call FN arg...   (arg: collective, uN user's request, n null)
    string fn0 = w[1]; bool st_ = fn0.size() > 3 && fn0.substr(fn0.size() - 3) == "_st"; string b = st_ ? fn0.substr(0, fn0.size() - 3) : fn0;
    vector<MPI_Request> v; vector<int> code; string cs;
    for (size_t i = 2; i < w.size(); i++) { bool u = w[i][0] == 'u'; int id = atoi(w[i].c_str() + (u ? 1 : 0)); v.push_back(w[i] == "n" ? MPI_REQUEST_NULL : u ? P.ureq[id] : P.colls[id].req); code.push_back(w[i] == "n" ? 0 : u ? 100 + id : id + 1); cs += (i > 2 ? "," : "") + std::to_string(code.back()); }
    vector<MPI_Request> before = v; int m = v.size(); vector<MPI_Status> sts(m + 1); MPI_Status one; int flag = -5, idx = -77, oc = -77; vector<int> ids(m + 1, -77), got; int rc = 0;
    MPI_Status *S1 = st_ ? &one : MPI_STATUS_IGNORE, *SN = st_ ? sts.data() : MPI_STATUSES_IGNORE;
    if (!quiet_pending) lg("\"callbegin\",\"" + b + "\",[" + cs + "]");
    auto und = [](int x) { return x == MPI_UNDEFINED ? -1 : x; };
    boundary();
    if (b == "wait") { rc = CALL(int (*)(MPI_Request *, MPI_Status *), "MPI_Wait")(&v[0], S1); flag = 1; }
    else if (b == "test") rc = CALL(int (*)(MPI_Request *, int *, MPI_Status *), "MPI_Test")(&v[0], &flag, S1);
    else if (b == "getstatus") rc = CALL(int (*)(MPI_Request, int *, MPI_Status *), "MPI_Request_get_status")(v[0], &flag, S1), [&] { if (flag == 1 && st_ && code[0] >= 100 && P.act[code[0]] && P.usrc.count(code[0] - 100) && (one.MPI_SOURCE != P.usrc[code[0] - 100].first || one.MPI_TAG != P.usrc[code[0] - 100].second)) fail("api", "MPI_Request_get_status: wrong status of a user message"); }();
    else if (b == "waitall") { rc = CALL(int (*)(int, MPI_Request *, MPI_Status *), "MPI_Waitall")(m, v.data(), SN); flag = 1; }
    else if (b == "testall") rc = CALL(int (*)(int, MPI_Request *, int *, MPI_Status *), "MPI_Testall")(m, v.data(), &flag, SN);
    else if (b == "waitany") { rc = CALL(int (*)(int, MPI_Request *, int *, MPI_Status *), "MPI_Waitany")(m, v.data(), &idx, S1); flag = 1; got.push_back(und(idx)); }
    else if (b == "testany") { rc = CALL(int (*)(int, MPI_Request *, int *, int *, MPI_Status *), "MPI_Testany")(m, v.data(), &idx, &flag, S1); got.push_back(und(idx)); }
    else if (b == "waitsome") { rc = CALL(int (*)(int, MPI_Request *, int *, int *, MPI_Status *), "MPI_Waitsome")(m, v.data(), &oc, ids.data(), SN); flag = 1; }
    else if (b == "testsome") { rc = CALL(int (*)(int, MPI_Request *, int *, int *, MPI_Status *), "MPI_Testsome")(m, v.data(), &oc, ids.data(), SN); flag = oc != 0; }
    else if (b == "startall") { for (size_t i = 2; i < w.size(); i++) { P.act[code[i - 2]] = true; if (w[i][0] != 'u') mark('g', I(i), 0); } boundary(); rc = CALL(int (*)(int, MPI_Request *), "MPI_Startall")(m, v.data()); flag = 1; }
    else fail("script", "call %s", b.c_str());
    boundary();
    if (b == "waitsome" || b == "testsome") { if (oc == MPI_UNDEFINED) got.push_back(-1); else if (oc < 0 || oc > m) got.push_back(-99); else for (int i = 0; i < oc; i++) got.push_back(ids[i]); }
    string gs, hs; for (size_t i = 0; i < got.size(); i++) gs += (i ? "," : "") + std::to_string(got[i]);
    for (int i = 0; i < m; i++) hs += (i ? "," : "") + std::to_string(v[i] == before[i] ? 0 : v[i] == MPI_REQUEST_NULL ? 1 : 2);      // 0 unchanged 1 became null 2 something else
    // which requests the call reports as completed (what the user would conclude)
    vector<int> fin; if (b == "wait" || b == "test" || b == "waitall" || b == "testall") { if (flag == 1) for (int i = 0; i < m; i++) fin.push_back(i); } else for (int g : got) if (g >= 0 && g < m && flag == 1) fin.push_back(g);
    if (b != "startall") for (int i : fin) { if (code[i] > 0 && code[i] < 100) { if (P.act[code[i]]) mark('e', code[i] - 1, 0); }
      else if (code[i] >= 100 && st_ && P.act[code[i]] && P.usrc.count(code[i] - 100)) { MPI_Status &t = (b == "wait" || b == "test" || b == "waitany" || b == "testany") ? one : (b == "waitall" || b == "testall") ? sts[i] : sts[std::find(got.begin(), got.end(), i) - got.begin()]; auto e = P.usrc[code[i] - 100]; if (t.MPI_SOURCE != e.first || t.MPI_TAG != e.second) fail("api", "MPI_%s: wrong status of a user message", b.c_str()); }
      P.act[code[i]] = false; }
    for (int i = 0; i < m; i++) if (code[i] >= 100) P.ureq[code[i] - 100] = v[i];
    if (!(quiet_pending && flag == 0 && fin.empty())) lg("\"call\",\"" + b + "\",[" + cs + "]," + std::to_string(rc ? -9 : flag) + ",[" + gs + "],[" + hs + "]");
    yield_point();
  }
  else if (o == "drain") {     // repeats a completion call until it has reported every listed request
    long polls = 0; vector<string> c = w; c[0] = "call"; bool live;
    do { quiet_pending = polls > 2; unsigned long before = logv.size(); (void)before; int a0 = 0, a1 = 0; for (size_t i = 2; i < w.size(); i++) if (w[i] != "n") a0 += P.act[w[i][0] == 'u' ? 100 + atoi(w[i].c_str() + 1) : atoi(w[i].c_str()) + 1];
      if (a0 == 0) break;
      exec(c); quiet_pending = 0;
      for (size_t i = 2; i < w.size(); i++) if (w[i] != "n") a1 += P.act[w[i][0] == 'u' ? 100 + atoi(w[i].c_str() + 1) : atoi(w[i].c_str()) + 1];
      live = a1 > 0;
      if (a1 == a0) { bool blocking = w[1][0] == 'w'; if (blocking) { lg("\"stuck\",\"" + w[1] + "\""); break; } if (polls++ > 30000) fail("hang", "MPI_%s never completes", w[1].c_str()); unsuccessful_poll(); } else progress_made();
    } while (live); quiet_pending = 0; }
  else if (o == "progress") { boundary(); CALL(int (*)(), "EXT_MPI_Progress")(); boundary(); yield_point(); }
  else if (o == "waitall" || o == "waitallst") { vector<MPI_Request> v = reqs(1); vector<MPI_Status> st(v.size() + 1); for (size_t i = 1; i < w.size(); i++) if (w[i][0] != 'u') lg("\"waitcall\"," + w[i]); boundary(); int rc = CALL(int (*)(int, MPI_Request *, MPI_Status *), "MPI_Waitall")(v.size(), v.data(), o == "waitall" ? MPI_STATUSES_IGNORE : st.data()); boundary(); putback(1, v); if (rc) fail("rc", "waitall"); for (size_t i = 1; i < w.size(); i++) if (w[i][0] != 'u') { mark('e', I(i), 0); lg("\"done\"," + w[i]); } }
  else if (o == "waitany" || o == "waitsome" || o == "testany" || o == "testsome" || o == "waitanyst" || o == "testanyst" || o == "waitsomest" || o == "testsomest") {
    // complete every listed request through repeated calls
    bool st_ = o.size() > 2 && o.substr(o.size() - 2) == "st"; string b = st_ ? o.substr(0, o.size() - 2) : o;
    std::set<int> left; for (size_t i = 1; i < w.size(); i++) left.insert(i - 1);
    long polls = 0;
    while (!left.empty()) {
      vector<MPI_Request> v = reqs(1); MPI_Status st; vector<MPI_Status> sts(v.size() + 1); int idx = -77, flag = 0, oc = -77; vector<int> ids(v.size() + 1, -77); vector<int> got;
      boundary();
      if (b == "waitany") { CALL(int (*)(int, MPI_Request *, int *, MPI_Status *), "MPI_Waitany")(v.size(), v.data(), &idx, st_ ? &st : MPI_STATUS_IGNORE); boundary(); got.push_back(idx); }
      else if (b == "testany") { CALL(int (*)(int, MPI_Request *, int *, int *, MPI_Status *), "MPI_Testany")(v.size(), v.data(), &idx, &flag, st_ ? &st : MPI_STATUS_IGNORE); boundary(); if (flag) got.push_back(idx); }
      else if (b == "waitsome") { CALL(int (*)(int, MPI_Request *, int *, int *, MPI_Status *), "MPI_Waitsome")(v.size(), v.data(), &oc, ids.data(), st_ ? sts.data() : MPI_STATUSES_IGNORE); boundary(); if (oc < 1 || oc > (int)v.size()) fail("api", "MPI_Waitsome returned outcount %d with active requests", oc); for (int i = 0; i < oc; i++) got.push_back(ids[i]); }
      else { CALL(int (*)(int, MPI_Request *, int *, int *, MPI_Status *), "MPI_Testsome")(v.size(), v.data(), &oc, ids.data(), st_ ? sts.data() : MPI_STATUSES_IGNORE); boundary(); if (oc < 0 || oc > (int)v.size()) fail("api", "MPI_Testsome returned outcount %d with active requests", oc); for (int i = 0; i < oc; i++) got.push_back(ids[i]); }
      for (int g : got) {
        lg("\"some\",\"" + b + "\"," + std::to_string(g) + "," + (g >= 0 && g + 1 < (int)w.size() ? (w[g + 1][0] == 'u' ? "-1" : w[g + 1]) : "-2"));
        if (g < 0 || g >= (int)v.size()) fail("api", "MPI_%s reports index %d out of range", b.c_str(), g);
        if (!left.count(g)) fail("api", "MPI_%s reports request %d as completed although it is inactive", b.c_str(), g);
        left.erase(g); if (w[g + 1][0] != 'u') { mark('e', atoi(w[g + 1].c_str()), 0); lg("\"done\"," + w[g + 1]); }
      }
      putback(1, v);
      if (got.empty()) { if (polls++ > 30000) fail("hang", "never completes"); unsuccessful_poll(); } else progress_made();
    }
  } else if (o == "testall" || o == "testallst") {
    int flag = 0; long polls = 0; do { vector<MPI_Request> v = reqs(1); vector<MPI_Status> st(v.size() + 1); flag = -5; boundary(); CALL(int (*)(int, MPI_Request *, int *, MPI_Status *), "MPI_Testall")(v.size(), v.data(), &flag, o == "testall" ? MPI_STATUSES_IGNORE : st.data()); boundary(); putback(1, v); if (flag != 0 && flag != 1) fail("api", "MPI_Testall flag %d", flag); if (!flag) { if (polls++ < 3) for (size_t i = 1; i < w.size(); i++) if (w[i][0] != 'u') lg("\"polled\"," + w[i]); if (polls > 30000) fail("hang", "MPI_Testall never completes"); unsuccessful_poll(); } } while (!flag);
    for (size_t i = 1; i < w.size(); i++) if (w[i][0] != 'u') { mark('e', I(i), 0); lg("\"done\"," + w[i]); }
  } else if (o == "free") { Coll &c = C(1); CollRank &q = Q(1); lg("\"free\"," + w[1]); uint64_t h1 = hashbuf(q.sreg), h2 = hashbuf(q.rreg); int rc = 0; boundary();
    if (c.iface == "ext") rc = CALL(x_h, "EXT_MPI_Done")(q.handle); else if (c.iface == "f08") { int e = -9; CALL(p_q, "mpi_request_free_f08_")(&q.req, &e); rc = e; } else { rc = CALL(int (*)(MPI_Request *), "MPI_Request_free")(&q.req); if (q.req != MPI_REQUEST_NULL) fail("api", "MPI_Request_free did not set the handle to MPI_REQUEST_NULL"); }
    boundary(); if (rc) fail("rc", "free returned %d", rc); q.inited = false; lg("\"freed\"," + w[1]);
    if (h1 != hashbuf(q.sreg) || h2 != hashbuf(q.rreg)) { if (!touched++) touchedfirst = "free changed the user's buffers at rank " + std::to_string(cur->id); } }
  else if (o == "blk") { Coll &c = C(1); CollRank &q = Q(1); mkbufs(c, q); user_write(c, q, I(2)); lg("\"start\"," + w[1]); mark('g', c.id, 0); do_blocking(c, q); mark('e', c.id, 0); lg("\"done\"," + w[1]); user_read(c, q, I(2)); }
  else if (o == "note") { string t = "\"" + w[1] + "\""; for (size_t i = 2; i < w.size(); i++) t += "," + w[i]; lg(t); }
  else if (o == "pbar") barriers(w[1], atol(w[2].c_str()), w[3]);
  else if (o == "rv") place_request(I(1), I(2));
  else if (o == "use" || o == "useu" || o == "once") {     // what does starting and completing this request act on?
    int id = I(1); int n; for (auto &kv : P.colls) if (kv.second.inited) user_write(colls[kv.first], kv.second, 1);
    cur->ustarts.clear(); void *h = o == "use" ? (void *)Q(1).req : (void *)P.ureq[id]; boundary();
    if (o == "use") { CALL(int (*)(MPI_Request *), "MPI_Start")(&Q(1).req); boundary(); if ((int)w.size() > 2) { int f = 0; while (!f) { CALL(int (*)(MPI_Request *, int *, MPI_Status *), "MPI_Test")(&Q(1).req, &f, MPI_STATUS_IGNORE); boundary(); if (!f) unsuccessful_poll(); } } else CALL(int (*)(MPI_Request *, MPI_Status *), "MPI_Wait")(&Q(1).req, MPI_STATUS_IGNORE); }
    else { auto g = P.ubuf[id].first; if (o == "useu") memset(g->base, 0, g->size); MPI_Request s; char m[64]; for (int i = 0; i < 64; i++) m[i] = (char)(id + 1); PMPI_Isend(m, g->size, MPI_CHAR, myrank1(commof(1)), 50 + id, commof(1), &s); boundary();
      if (o == "useu") { CALL(int (*)(MPI_Request *), "MPI_Start")(&P.ureq[id]); boundary(); } CALL(int (*)(MPI_Request *, MPI_Status *), "MPI_Wait")(&P.ureq[id], MPI_STATUS_IGNORE); boundary(); PMPI_Wait(&s, MPI_STATUS_IGNORE); }
    boundary(); string cs, us; for (auto &kv : P.colls) if (kv.second.inited) { bool same = true; Region *g = kv.second.rreg; for (size_t i = 0; i < g->size; i++) if (g->base[i] != 0x5A) same = false; if (!same) { int me = myrank(colls[kv.first], &n); bool ok = true; Coll &c = colls[kv.first]; int esz = type_size_of(dtof(c.dt)), vk = vkind(c.dt); long sl, rl; sizes(c, kv.second.counts, kv.second.displs, me, &sl, &rl); for (long i = 0; i < rl; i++) { V2 e, gg = dec(vk, esz, g->base + i * esz); if (expected(c, kv.second, me, n, 1, i, &e) && (e.hi != gg.hi || e.lo != gg.lo)) ok = false; } cs += (cs.empty() ? "" : ",") + std::to_string(ok ? kv.first + 1 : -(kv.first + 1)); } }
    for (auto &kv : P.ubuf) if (kv.second.first->coll == -3) { bool f = kv.second.first->base[0] != 0; if (f) { us += (us.empty() ? "" : ",") + std::to_string(kv.first); memset(kv.second.first->base, 0, kv.second.first->size); } }
    int self = 0; for (void *x : cur->ustarts) self += x == h;
    lg("\"" + o + "\"," + w[1] + ",[" + cs + "],[" + us + "]," + std::to_string(self) + "," + std::to_string((int)cur->ustarts.size() - self)); }
  else if (o == "sync") sync_all(w[1]);
  else if (o == "yield") { for (int i = 0; i < I(1); i++) yield_point(); }
  else if (P.f08 && (o == "split" || o == "splitt" || o == "dup" || o == "create" || o == "cfree")) {
    MPI_Comm x = MPI_COMM_NULL, c = commof(I(o == "cfree" ? 1 : 2)); int e = -9; MPI_Group g, h = 0; MPI_Info inf = MPI_INFO_NULL;
    if (o == "create") { PMPI_Comm_group(c, &g); vector<int> v; for (size_t i = 3; i < w.size(); i++) v.push_back(I(i)); PMPI_Group_incl(g, v.size(), v.data(), &h); }
    boundary();
    if (o == "split") { int color = I(3) < 0 ? MPI_UNDEFINED : I(3), key = I(4); CALL(void (*)(MPI_Comm *, int *, int *, MPI_Comm *, int *), "mpi_comm_split_f08_")(&c, &color, &key, &x, &e); }
    else if (o == "splitt") { int ty = MPI_COMM_TYPE_SHARED, key = I(3); CALL(void (*)(MPI_Comm *, int *, int *, MPI_Info *, MPI_Comm *, int *), "mpi_comm_split_type_f08_")(&c, &ty, &key, &inf, &x, &e); }
    else if (o == "dup") CALL(void (*)(MPI_Comm *, MPI_Comm *, int *), "mpi_comm_dup_f08_")(&c, &x, &e);
    else if (o == "create") CALL(void (*)(MPI_Comm *, MPI_Group *, MPI_Comm *, int *), "mpi_comm_create_f08_")(&c, &h, &x, &e);
    else if (c != MPI_COMM_NULL) { CALL(void (*)(MPI_Comm *, int *), "mpi_comm_free_f08_")(&c, &e); if (c != MPI_COMM_NULL) fail("api", "freed communicator not nulled"); } else e = 0;
    boundary(); if (e) fail("rc", "%s through the Fortran interface returned %d", o.c_str(), e);
    if (o == "cfree") P.comms.erase(I(1)); else P.comms[I(1)] = x; }
  else if (o == "splitt") { MPI_Comm x; boundary(); CALL(int (*)(MPI_Comm, int, int, MPI_Info, MPI_Comm *), "MPI_Comm_split_type")(commof(I(2)), MPI_COMM_TYPE_SHARED, I(3), MPI_INFO_NULL, &x); boundary(); P.comms[I(1)] = x; }
  else if (o == "split") { MPI_Comm x; boundary(); CALL(int (*)(MPI_Comm, int, int, MPI_Comm *), "MPI_Comm_split")(commof(I(2)), I(3) < 0 ? MPI_UNDEFINED : I(3), I(4), &x); boundary(); P.comms[I(1)] = x; }
  else if (o == "dup") { MPI_Comm x; boundary(); CALL(int (*)(MPI_Comm, MPI_Comm *), "MPI_Comm_dup")(commof(I(2)), &x); boundary(); P.comms[I(1)] = x; }
  else if (o == "create") { MPI_Comm x; MPI_Group g, h; PMPI_Comm_group(commof(I(2)), &g); vector<int> v; for (size_t i = 3; i < w.size(); i++) v.push_back(I(i)); PMPI_Group_incl(g, v.size(), v.data(), &h); boundary(); CALL(int (*)(MPI_Comm, MPI_Group, MPI_Comm *), "MPI_Comm_create")(commof(I(2)), h, &x); boundary(); P.comms[I(1)] = x; PMPI_Group_free(&g); PMPI_Group_free(&h); }
  else if (o == "cfree") { MPI_Comm x = commof(I(1)); if (x != MPI_COMM_NULL) { boundary(); CALL(int (*)(MPI_Comm *), "MPI_Comm_free")(&x); boundary(); } P.comms.erase(I(1)); }
  else if (o == "usend" || o == "urecv") { // id peer tag len comm : user-level nonblocking message with checked content
    int id = I(1), len = I(4); Region *g = new_region(RK_USER, len, cur->id, "user message " + w[1]); char *b = map_region(g, false); P.ubuf[id] = {g, b}; g->coll = -2; boundary();
    P.act[100 + id] = true; if (o == "urecv" && I(2) >= 0) P.usrc[id] = {I(2), I(3)}; lg("\"post\"," + std::to_string(100 + id) + "," + (o == "usend" ? "1" : "0") + "," + w[2] + "," + w[3]);
    if (o == "usend") { for (int i = 0; i < len; i++) g->base[i] = (char)(mix(cur->id * 1000 + I(3) * 31 + i) | 1); PMPI_Isend(b, len, MPI_CHAR, I(2), I(3), commof(I(5)), &P.ureq[id]); }
    else { P.urlen[id] = len; PMPI_Irecv(b, len, MPI_CHAR, I(2) < 0 ? MPI_ANY_SOURCE : I(2), I(3) < 0 ? MPI_ANY_TAG : I(3), commof(I(5)), &P.ureq[id]); } boundary(); }
  else if (o == "ucheck") { // id srcworldrank tag
    int id = I(1); Region *g = P.ubuf[id].first; for (size_t i = 0; i < g->size; i++) if (g->base[i] != (char)(mix(I(2) * 1000 + I(3) * 31 + i) | 1)) { fail("uservalue", "user message %d arrived with wrong content", id); } }
  else if (o == "pr" || o == "ir") { // a receive from oneself on communicator 1: persistent or not
    int id = I(1); if (!P.ubuf.count(id)) { Region *g = new_region(RK_USER, 8, cur->id, "user message " + w[1]); char *b = map_region(g, false); P.ubuf[id] = {g, b}; g->coll = -3; } Region *g = P.ubuf[id].first; memset(g->base, 0, g->size); boundary();
    if (o == "pr") PMPI_Recv_init(P.ubuf[id].second, 8, MPI_CHAR, myrank1(commof(1)), 50 + id, commof(1), &P.ureq[id]); else PMPI_Irecv(P.ubuf[id].second, 8, MPI_CHAR, myrank1(commof(1)), 50 + id, commof(1), &P.ureq[id]); boundary(); }
  else if (o == "uinit") { // persistent user recv/send: id send? peer tag len comm
    int id = I(1), len = I(5); lg("\"uinit\"," + std::to_string(100 + id) + "," + w[2] + "," + w[3] + "," + w[4]); if (!I(2)) P.usrc[id] = {I(3), I(4)}; Region *g = new_region(RK_USER, len, cur->id, "user message " + w[1]); char *b = map_region(g, false); P.ubuf[id] = {g, b}; g->coll = -2; boundary();
    if (I(2)) { for (int i = 0; i < len; i++) g->base[i] = (char)(mix(cur->id * 1000 + I(4) * 31 + i) | 1); PMPI_Send_init(b, len, MPI_CHAR, I(3), I(4), commof(I(6)), &P.ureq[id]); } else PMPI_Recv_init(b, len, MPI_CHAR, I(3), I(4), commof(I(6)), &P.ureq[id]); boundary(); }
  else if (o == "ustart") { boundary(); CALL(int (*)(MPI_Request *), "MPI_Start")(&P.ureq[I(1)]); boundary(); }
  else if (o == "uwait") { boundary(); CALL(int (*)(MPI_Request *, MPI_Status *), "MPI_Wait")(&P.ureq[I(1)], MPI_STATUS_IGNORE); boundary(); }
  else if (o == "utest") { int f = 0; do { boundary(); CALL(int (*)(MPI_Request *, int *, MPI_Status *), "MPI_Test")(&P.ureq[I(1)], &f, MPI_STATUS_IGNORE); boundary(); if (!f) unsuccessful_poll(); } while (!f); }
  else if (o == "ufree") { boundary(); CALL(int (*)(MPI_Request *), "MPI_Request_free")(&P.ureq[I(1)]); boundary(); if (P.ureq[I(1)] != MPI_REQUEST_NULL) fail("api", "request not nulled"); }
  else if (o == "snap") { boundary(); lg("\"snap\"," + w[1] + "," + std::to_string(cur->heap_live) + "," + std::to_string(cur->heap.size()) + "," + std::to_string(cur->attaches) + "," + std::to_string(cur->comms_live) + "," + std::to_string(cur->reqs_live) + "," + std::to_string(shm_live())); }
  else fail("script", "unknown operation %s", o.c_str());
}

void rank_main(int id) {
  PerRank &P = pr[id];
  cur->recording = false;
  for (auto &w : P.ops) { string s; for (auto &x : w) s += x + " "; cur_op[id] = s; exec(w); if (w[0] != "rec") yield_point(); }
  cur_op[id] = "finished";
}

int main(int argc, char **argv) {
  if (argc < 4) { fprintf(stderr, "usage: sim LIBDIR SCENARIO RESULT\n"); return 2; }
  string dir = argv[1]; result_path = argv[3];
  std::ifstream f(argv[2]); string line; int n = 0; string libout = "/dev/null";
  vector<std::pair<string, string>> scripts;
  while (std::getline(f, line)) {
    std::istringstream is(line); string k; if (!(is >> k) || k[0] == '#') continue; if (k.back() == ':') k.pop_back();
    string t;
    if (k == "world") while (is >> t) { auto e = t.find('='); string a = t.substr(0, e), b = t.substr(e + 1);
      if (a == "n") n = stoi(b); else if (a == "seed") opt.seed = stoull(b); else if (a == "ppn") opt.ppn = stoi(b); else if (a == "sched") opt.sched = b; else if (a == "net") opt.net = b; else if (a == "stale") opt.stale = stoi(b); else if (a == "fill") opt.fill = stoi(b); else if (a == "dataswitch") opt.dataswitch = stoi(b); else if (a == "pollex") opt.pollex = stoi(b); else if (a == "reqaddr") opt.reqaddr = stoi(b); else if (a == "record") opt.record = stoi(b); else if (a == "bstart") vp_barrier_start = stol(b); else if (a == "logvals") logvals = stoi(b); else if (a == "log") logapi = stoi(b); else if (a == "out") libout = b; else if (a == "maxsteps") opt.maxsteps = stol(b); }
    else if (k == "env") { is >> t; string v; std::getline(is, v); if (!v.empty() && v[0] == ' ') v.erase(0, 1); setenv(t.c_str(), v.c_str(), 1); }
    else if (k == "coll") { Coll c; is >> c.id; while (is >> t) { auto e = t.find('='); string a = t.substr(0, e), b = t.substr(e + 1);
        if (a == "type") c.type = b; else if (a == "count") c.count = stol(b); else if (a == "dt") c.dt = b; else if (a == "op") c.op = b; else if (a == "root") c.root = stoi(b); else if (a == "comm") c.comm = stoi(b); else if (a == "inplace") c.inplace = stoi(b); else if (a == "iface") c.iface = b; else if (a == "nonroot") c.nonroot = b;
        else if (a == "counts" || a == "displs") { std::istringstream q(b); string x; while (std::getline(q, x, ',')) (a == "counts" ? c.counts : c.displs).push_back(stoi(x)); }
        else if (a == "info") { c.hasinfo = true; std::istringstream q(b); string x; while (std::getline(q, x, '|')) { auto e2 = x.find(':'); string v = x.substr(e2 + 1); std::replace(v.begin(), v.end(), '_', ' '); c.info[x.substr(0, e2)] = v; } } }
      colls[c.id] = c; }
    else if (k == "rank" || k == "all") { string who = "*"; if (k == "rank") { is >> who; if (who.back() == ':') who.pop_back(); } string rest; std::getline(is, rest); scripts.push_back({who, rest}); }
    else { fprintf(stderr, "bad line %s\n", line.c_str()); return 2; }
  }
  // keep the library's chatter away
  int fd = open(libout.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { dup2(fd, 1); close(fd); }
  pr.resize(n);
  for (auto &s : scripts) { std::istringstream is(s.second); string stmt; while (std::getline(is, stmt, ';')) { std::istringstream q(stmt); vector<string> w; string t; while (q >> t) w.push_back(t); if (w.empty()) continue; for (int i = 0; i < n; i++) if (s.first == "*" || stoi(s.first) == i) pr[i].ops.push_back(w); } }
  world_init(n); mpi_world_init();
  for (int i = 0; i < n; i++) { string p = dir + "/lib" + std::to_string(i) + ".so"; ranks[i]->dl = dlopen(p.c_str(), RTLD_LAZY | RTLD_LOCAL); if (!ranks[i]->dl) { fprintf(stderr, "dlopen %s\n", dlerror()); return 2; } }
  schedule();
  heap_guards();
  write_result("ok", "");
  _exit(0);
}
