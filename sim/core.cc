// Core of the simulated world: coroutines and scheduler, data memory, access hooks, recorder.
#include "sim.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/ipc.h>
#include <sys/shm.h>
#include <unistd.h>
#include <signal.h>
#include <stdarg.h>
#include <errno.h>
#include <algorithm>

std::vector<Rank *> ranks;
Rank *cur = nullptr;
int NR = 0;
Options opt;
std::vector<Region *> regions;
long g_events = 0;

static ucontext_t main_ctx;
static uint64_t rngs[2] = {1, 2};
uint64_t rnd() {
  uint64_t a = rngs[0], b = rngs[1];
  rngs[0] = b; a ^= a << 23; rngs[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
  return rngs[1] + b;
}

// ---------------------------------------------------------------- arena
static const size_t ARENA = 1ull << 37;
static uintptr_t a_lo, a_hi, a_next;
struct Mapping { uintptr_t start; size_t len; Region *reg; bool ro; };
static std::map<uintptr_t, Mapping> maps_;   // live mappings by start

static void arena_init() {
  void *p = mmap(nullptr, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("arena"); exit(2); }
  a_lo = (uintptr_t)p; a_hi = a_lo + ARENA; a_next = a_lo + 4096;
}
static inline bool in_arena(const void *p) { return (uintptr_t)p - a_lo < ARENA; }

Region *new_region(RegKind k, size_t size, int owner, const std::string &name) {
  Region *g = new Region();
  g->id = regions.size(); g->kind = k; g->size = size; g->owner = owner; g->name = name;
  g->base = nullptr;
  regions.push_back(g);
  if (k != RK_HEAP) {
    size_t sz = (size + 4095) & ~4095ull; if (!sz) sz = 4096;
    g->fd = memfd_create("r", 0);
    if (g->fd < 0 || ftruncate(g->fd, sz)) { perror("memfd"); exit(2); }
    g->base = (char *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, g->fd, 0);
    if (g->base == MAP_FAILED) { perror("mmap region"); exit(2); }
  }
  return g;
}
char *map_region(Region *g, bool ro) {
  size_t sz = (g->size + 4095) & ~4095ull; if (!sz) sz = 4096;
  uintptr_t at = a_next; a_next += sz + 4096;
  if (a_next >= a_hi) { fprintf(stderr, "arena exhausted\n"); _exit(2); }
  void *p = mmap((void *)at, sz, ro ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, g->fd, 0);
  if (p == MAP_FAILED) { perror("map"); exit(2); }
  // user buffers end where their page range ends or start where it starts: exact bounds are checked by the hooks
  maps_[at] = Mapping{at, g->size, g, ro};
  return (char *)p;
}
static Mapping *find_map(const void *p) {
  auto it = maps_.upper_bound((uintptr_t)p);
  if (it == maps_.begin()) return nullptr;
  --it;
  size_t sz = (it->second.len + 4095) & ~4095ull; if (!sz) sz = 4096;
  if ((uintptr_t)p < it->second.start + sz) return &it->second;
  return nullptr;
}
static Mapping *last_map = nullptr;
static void unmap_at(uintptr_t at) {
  auto it = maps_.find(at);
  size_t sz = (it->second.len + 4095) & ~4095ull; if (!sz) sz = 4096;
  mmap((void *)at, sz, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  maps_.erase(it); last_map = nullptr;
}
static inline Mapping *map_of(const void *p) {
  if (last_map && (uintptr_t)p - last_map->start < last_map->len) return last_map;
  Mapping *m = find_map(p);
  if (m) last_map = m;
  return m;
}
Region *region_of(const void *p, long *off) {
  if (!in_arena(p)) return nullptr;
  Mapping *m = map_of(p);
  if (!m) return nullptr;
  *off = (uintptr_t)p - m->start;
  return m->reg;
}

// ---------------------------------------------------------------- failure
extern void write_result(const char *kind, const char *msg);
void fail(const char *kind, const char *fmt, ...) {
  char buf[1000], b2[1200];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  snprintf(b2, sizeof b2, "%s%s%d%s", buf, cur ? " (rank " : "", cur ? cur->id : -1, cur ? ")" : "");
  write_result(kind, b2);
  _exit(3);
}
static void on_segv(int sig, siginfo_t *si, void *) {
  long off; Region *g = region_of(si->si_addr, &off);
  if (g) fail("crash", "signal %d: forbidden access to region %s offset %ld", sig, g->name.c_str(), off);
  if (in_arena(si->si_addr)) fail("crash", "signal %d: access outside every buffer", sig);
  fail("crash", "signal %d", sig);
}
static void on_alrm(int) { fail("hang", "no scheduling point reached for the whole time limit"); }

// ---------------------------------------------------------------- recorder
void join(VC &a, const VC &b) { for (size_t i = 0; i < a.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }
void rec(Op &&o) {
  if (!cur || !opt.record || !cur->recording) return;
  auto &p = cur->prog;
  if (!p.empty()) {
    Op &l = p.back();
    if (l.k == o.k && (o.k == 'C' || o.k == 'R') && l.r0 == o.r0 && l.r1 == o.r1 &&
        l.o0 + l.len == o.o0 && l.o1 + l.len == o.o1 && (l.k == 'C' ? l.esz && l.esz == o.esz : l.esz == o.esz) &&
        (l.r0 != l.r1 || l.o0 + l.len + o.len <= l.o1 || l.o1 + l.len + o.len <= l.o0)) { l.len += o.len; return; }
    if (l.k == o.k && (o.k == 'X' || o.k == 'Z') && l.r0 == o.r0 && l.o0 + l.len == o.o0) { l.len += o.len; return; }
    if (l.k == 'F' && o.k == 'F' && l.r0 == o.r0 && l.o0 == o.o0) { l = o; return; }
  }
  p.push_back(std::move(o));
  if (p.size() > 400000) fail("toolong", "recorded program too long");
}
void data_event_sync() { if (cur) cur->pool.clear(); }

static uint64_t rdmem(const void *p, int s) { uint64_t v = 0; memcpy(&v, p, s); return v; }

static void restore_poke() {
  Rank *r = cur;
  if (r && r->poked) { memcpy(r->poke_addr, &r->poke_val, r->poke_size); r->poked = false; }
}

void resolve_pending() {
  Rank *r = cur;
  if (!r) return;
  restore_poke();
  if (!r->pw) return;
  r->pw = false;
  uint64_t v = rdmem(r->pw_addr, r->pw_size);
  int sz = r->pw_size;
  auto sum = [&](uint64_t a, uint64_t b) -> bool {
    if (sz == 8) {
      if ((uint64_t)(a + b) == v) return true;
      double x, y, z; memcpy(&x, &a, 8); memcpy(&y, &b, 8); z = x + y; uint64_t w; memcpy(&w, &z, 8); return w == v;
    }
    if (sz == 4) {
      if ((uint32_t)((uint32_t)a + (uint32_t)b) == (uint32_t)v) return true;
      float x, y, z; memcpy(&x, &a, 4); memcpy(&y, &b, 4); z = x + y; uint32_t w; memcpy(&w, &z, 4); return w == (uint32_t)v;
    }
    return false;
  };
  Op o; o.r0 = r->pw_reg; o.o0 = r->pw_off; o.len = sz; o.esz = sz;
  int n = r->pool.size();
  for (int i = n - 1; i >= 0; i--) {       // dst += src
    auto &A = r->pool[i];
    if (A.reg != r->pw_reg || A.off != r->pw_off || A.size != sz) continue;
    for (int j = n - 1; j >= 0; j--) {
      auto &B = r->pool[j];
      if (j == i || B.size != sz) continue;
      if (B.reg == A.reg && B.off == A.off) continue;
      if (sum(A.v, B.v)) { o.k = 'R'; o.r1 = B.reg; o.o1 = B.off; rec(std::move(o)); return; }
    }
  }
  for (int j = n - 1; j >= 0; j--) {       // plain copy
    auto &B = r->pool[j];
    if (B.size == sz && B.v == v) {
      if (B.reg == r->pw_reg && B.off == r->pw_off) { return; }
      o.k = 'C'; o.r1 = B.reg; o.o1 = B.off; rec(std::move(o)); return;
    }
  }
  for (int i = n - 1; i >= 0; i--)          // dst = a + b
    for (int j = n - 1; j > i; j--) {
      auto &A = r->pool[i]; auto &B = r->pool[j];
      if (A.size != sz || B.size != sz) continue;
      if (sum(A.v, B.v)) { o.k = 'S'; o.r1 = A.reg; o.o1 = A.off; o.r2 = B.reg; o.o2 = B.off; rec(std::move(o)); return; }
    }
  o.k = 'X'; rec(std::move(o));
}

// ---------------------------------------------------------------- scheduler
static long total_steps = 0;
static bool pct_change() { return opt.sched == "prio" && rnd() % (total_steps > 5000 ? 12 : 400) == 0; }

static void switch_out() { swapcontext(&cur->ctx, &main_ctx); }

void yield_point() {
  resolve_pending();
  if (cur) switch_out();
}
void block(const char *what, std::function<bool()> cond) {
  resolve_pending();
  data_event_sync();
  cur->spin_loc = -1;
  if (cond()) return;
  cur->cond = cond; cur->what = what;
  switch_out();
  cur->cond = nullptr;
}

static void run_rank(Rank *r) {
  cur = r;
  swapcontext(&main_ctx, &r->ctx);
  cur = nullptr;
}

extern void rank_main(int id);
static void tramp(int id) { rank_main(id); ranks[id]->finished = true; resolve_pending(); swapcontext(&ranks[id]->ctx, &main_ctx); }

static int idle_rounds = 0;
int poll_owner = -1; long poll_steps = 0;   // a rank in a test call, running alone
void schedule() {
  int last = -1;
  std::vector<int> run;
  while (true) {
    if (poll_owner >= 0) {
      // the others get to the end of the call in which they are, and stand still there
      Rank *r = ranks[poll_owner]; std::vector<Rank *> c;
      for (auto *x : ranks) if (!x->finished && (x == r || x->incall) && (!x->cond || x->cond())) c.push_back(x);
      if (c.empty()) fail("blocked", "rank %d waits for others inside a test call: %s", r->id, r->what);
      if (++poll_steps > 60000L * (long)c.size()) fail("blocked", "rank %d does not return from a test call while the others stand still", r->id);
      total_steps++; run_rank(c[rnd() % c.size()]); continue;
    }
    run.clear();
    bool alldone = true;
    for (auto *r : ranks) {
      if (r->finished) continue;
      alldone = false;
      if (!r->cond || r->cond()) run.push_back(r->id);
    }
    if (alldone) break;
    bool net = net_pending();
    if (run.empty()) {
      if (net && net_step()) continue;
      std::string m;
      for (auto *r : ranks) if (!r->finished) m += "rank " + std::to_string(r->id) + ": " + r->what + "; ";
      fail("deadlock", "%s", m.c_str());
    }
    // prefer ranks that are not spinning
    std::vector<int> act;
    for (int i : run) if (ranks[i]->spin_cnt < 3) act.push_back(i);
    if (act.empty()) {
      if (net && net_step()) { for (auto *r : ranks) r->spin_cnt = 0; continue; }
      // every runnable rank spins on an unchanged location: run each some more before giving up
      if (++idle_rounds > 20) {
        std::string m;
        for (auto *r : ranks) if (!r->finished) m += "rank " + std::to_string(r->id) + ": " + (r->cond ? r->what : "spinning on a shared flag or polling") + "; ";
        fail("deadlock", "%s", m.c_str());
      }
      for (int i : run) { total_steps++; run_rank(ranks[i]); }
      continue;
    }
    if (net && rnd() % 4 == 0) { net_step(); for (auto *r : ranks) r->spin_cnt = 0; }
    int pick;
    if (opt.sched == "seq") {            // run one rank as long as possible
      pick = -1;
      for (int i : act) if (i == last) pick = i;
      if (pick < 0) pick = act[0];
    } else if (opt.sched == "rseq") {
      pick = -1;
      for (int i : act) if (i == last) pick = i;
      if (pick < 0) pick = act.back();
    } else if (opt.sched == "rr") {
      pick = act[0];
      for (int i : act) if (i > last) { pick = i; break; }
    } else if (opt.sched == "prio") {
      pick = act[0];
      for (int i : act) if (ranks[i]->prio > ranks[pick]->prio) pick = i;
      if (pct_change()) ranks[pick]->prio = -(long)(rnd() % 1000000);
    } else pick = act[rnd() % act.size()];
    last = pick;
    if (++total_steps > opt.maxsteps) fail("hang", "step limit exceeded");
    run_rank(ranks[pick]);
  }
}
void progress_made() { idle_rounds = 0; }

void world_init(int n) {
  NR = n;
  rngs[0] = opt.seed * 0x9E3779B97F4A7C15ull + 1; rngs[1] = opt.seed ^ 0xD1B54A32D192ED03ull;
  for (int i = 0; i < 20; i++) rnd();
  arena_init();
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sa.sa_sigaction = on_segv;
  static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
  struct sigaction sb; memset(&sb, 0, sizeof sb); sb.sa_handler = on_alrm; sb.sa_flags = SA_ONSTACK; sigaction(SIGVTALRM, &sb, nullptr);
  struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 60; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  for (int i = 0; i < n; i++) {
    Rank *r = new Rank(); r->id = i; r->vc.assign(n, 0); r->vc[i] = 1;
    r->prio = rnd() % 1000000; r->clockrng = rnd() | 1;
    size_t ss = 64 << 20;
    r->stack = (char *)mmap(nullptr, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&r->ctx);
    r->ctx.uc_stack.ss_sp = r->stack; r->ctx.uc_stack.ss_size = ss; r->ctx.uc_link = nullptr;
    makecontext(&r->ctx, (void (*)())tramp, 1, i);
    ranks.push_back(r);
  }
}

// ---------------------------------------------------------------- flags (volatile / atomic shared words)
struct Hist { uint64_t v; VC vc; int wr; int op; };
struct FlagLoc { int size; std::vector<Hist> h; };
static std::map<long long, FlagLoc> flags;
static inline long long key(Region *g, long off) { return ((long long)g->id << 34) | off; }

static FlagLoc &flagloc(Region *g, long off, int size) {
  auto it = flags.find(key(g, off));
  if (it == flags.end()) {
    FlagLoc f; f.size = size;
    VC z(NR, 0);
    f.h.push_back(Hist{rdmem(g->base + off, size), z, -1, -1});
    it = flags.emplace(key(g, off), f).first;
  }
  return it->second;
}
static void flags_overwritten(Region *g, long off, long len) {    // plain write over flag words
  auto lo = flags.lower_bound(key(g, off));
  while (lo != flags.end() && lo->first < key(g, off) + len) lo = flags.erase(lo);
}
static void flag_write(Region *g, long off, int size, uint64_t v) {
  Rank *r = cur;
  FlagLoc &f = flagloc(g, off, size);
  Op o; o.k = 'W'; o.r0 = g->id; o.o0 = off; o.len = size; o.a = (int)v;
  if (!f.h.empty() && f.h.back().v == v && f.h.back().wr == r->id) {   // polling rewrites its flag: nothing new to see
    auto &p = r->prog; int n = p.size();
    bool collapse = n >= 2 && p[n-1].k == 'F' && p[n-2].k == 'W' && p[n-2].r0 == g->id && p[n-2].o0 == off && p[n-2].a == (int)v;
    if (collapse) { if (opt.record && r->recording) p.pop_back(); } else rec(std::move(o));
    r->seen[key(g, off)] = f.h.size() - 1;
    return;
  }
  int idx = r->prog.size();
  rec(std::move(o));
  r->vc[r->id]++;
  f.h.push_back(Hist{v, r->vc, r->id, idx});
  if (f.h.size() > 64 && f.h.size() > 4096) {}
  r->seen[key(g, off)] = f.h.size() - 1;
  for (auto *q : ranks) q->spin_cnt = 0;
  progress_made();
}

static inline void check_bounds(Region *g, long off, long size, const char *what) {
  if (off < 0 || off + size > (long)g->size) fail("oob", "%s of %ld bytes at offset %ld of %s (size %zu)", what, size, off, g->name.c_str(), g->size);
}

static void maybe_switch() {
  if (opt.dataswitch && rnd() % opt.dataswitch == 0) yield_point();
}

struct PendFlag { bool on = false; Region *g; long off; int size; };
static std::vector<PendFlag> pendflag;

static void flush_flag() {     // a flag store announced by its hook has been performed
  if (!cur) return;
  if ((int)pendflag.size() < NR) pendflag.resize(NR);
  PendFlag &p = pendflag[cur->id];
  if (p.on) { p.on = false; flag_write(p.g, p.off, p.size, rdmem(p.g->base + p.off, p.size)); }
}

static void flag_read(Region *g, long off, int size, const char *) {
  Rank *r = cur;
  long long k = key(g, off);
  FlagLoc &f = flagloc(g, off, size);
  int n = f.h.size();
  int lo = 0;
  auto s = r->seen.find(k);
  if (s != r->seen.end()) lo = s->second;
  if (lo >= n) lo = n - 1;
  for (int i = n - 1; i > lo; i--) {
    // an entry whose write happens-before this read hides all older ones
    const Hist &h = f.h[i];
    if (h.wr < 0 || h.vc[h.wr] <= r->vc[h.wr]) { lo = i; break; }
  }
  if (lo < n - 12) lo = n - 12;          // and not for ever behind a polling writer
  int pick;
  if (opt.stale == 0) pick = n - 1;
  else if (opt.stale == 1) {
    pick = lo;
    if (s != r->seen.end() && s->second == lo && lo + 1 < n) pick = lo + 1;   // an old value is not seen for ever
  } else pick = (r->spin_loc == k) ? std::min(n - 1, lo + 1) : lo + rnd() % (n - lo);
  bool nothing_new = (r->spin_loc == k && s != r->seen.end() && s->second == pick);
  if (nothing_new) {
    r->spin_cnt++;
    if (r->spin_cnt >= 3) {       // spinning: give others a chance
      switch_out();
      // re-evaluate after others ran
      FlagLoc &f2 = flagloc(g, off, size);
      if ((int)f2.h.size() > pick + 1) { pick = opt.stale == 0 ? (int)f2.h.size() - 1 : pick + 1; }
    }
  } else { r->spin_cnt = 0; }
  FlagLoc &f3 = flagloc(g, off, size);
  r->spin_loc = k;
  r->seen[k] = pick;
  const Hist &h = f3.h[pick];
  if (h.wr >= 0) join(r->vc, h.vc);
  uint64_t now = rdmem(g->base + off, size);
  if (now != h.v) {
    r->poked = true; r->poke_addr = g->base + off; r->poke_val = now; r->poke_size = size;
    memcpy(g->base + off, &h.v, size);
  }
  Op o; o.k = 'F'; o.r0 = g->id; o.o0 = off; o.len = size; o.a = h.wr; o.b = h.op; o.c = (int)h.v;
  rec(std::move(o));
}

// heap blocks used as data
static std::map<uintptr_t, std::pair<size_t, Region *>> heapdata;
static uintptr_t hd_lo = 0, hd_hi = 0;
static Region *heap_region(const void *p, long *off) {
  if ((uintptr_t)p < hd_lo || (uintptr_t)p >= hd_hi) return nullptr;
  auto it = heapdata.upper_bound((uintptr_t)p);
  if (it == heapdata.begin()) return nullptr;
  --it;
  if ((uintptr_t)p >= it->first + it->second.first) return nullptr;
  *off = (uintptr_t)p - it->first;
  return it->second.second;
}
static Region *make_heap_region(const void *p, long *off) {
  if (!cur) return nullptr;
  auto it = cur->heap.upper_bound((void *)p);
  if (it == cur->heap.begin()) return nullptr;
  --it;
  uintptr_t s = (uintptr_t)it->first;
  if ((uintptr_t)p >= s + it->second.size) return nullptr;
  Region *g = new_region(RK_HEAP, it->second.size, cur->id, "heap" + std::to_string(cur->id));
  g->base = (char *)s; g->inno = it->second.inno;
  heapdata[s] = {it->second.size, g};
  if (!hd_hi || s < hd_lo) hd_lo = s;
  if (s + it->second.size > hd_hi) hd_hi = s + it->second.size;
  *off = (uintptr_t)p - s;
  return g;
}
Region *data_region(const void *p, size_t n, long *off, bool create) {
  if (in_arena(p)) {
    Region *g = region_of(p, off);
    if (!g) fail("oob", "access of %zu bytes outside every buffer", n);
    check_bounds(g, *off, n, "access");
    return g;
  }
  Region *g = heap_region(p, off);
  if (!g && create) g = make_heap_region(p, off);
  return g;
}

static void plain_slow(const void *p, int size, bool write);
static inline __attribute__((always_inline)) void plain(const void *p, int size, bool write) {
  if (__builtin_expect(!in_arena(p) && (uintptr_t)p - hd_lo >= hd_hi - hd_lo, 1)) return;
  plain_slow(p, size, write);
}
static __attribute__((noinline)) void plain_slow(const void *p, int size, bool write) {
  if (!cur) return;
  bool ar = in_arena(p);
  long off; Region *g;
  if (!ar) {
    if ((uintptr_t)p < hd_lo || (uintptr_t)p >= hd_hi) return;
    g = heap_region(p, &off);
    if (!g) return;
    if (g->owner != cur->id) fail("oob", "access to the private memory of rank %d", g->owner);
  } else {
    Mapping *m = map_of(p);
    if (!m) fail("oob", "%s outside every buffer", write ? "write" : "read");
    g = m->reg; off = (uintptr_t)p - m->start;
    if (m->ro && write) fail("crash", "write to a read-only attachment of %s", g->name.c_str());
    if (g->kind == RK_USER && g->owner != cur->id) fail("oob", "access to a user buffer of rank %d", g->owner);
    check_bounds(g, off, size, write ? "write" : "read");
  }
  resolve_pending(); flush_flag();
  if (ar) maybe_switch();
  if (cur->spin_loc >= 0) { cur->spin_loc = -1; cur->spin_cnt = 0; progress_made(); }
  if (write) {
    if (g->kind == RK_SHM) {
      if (!flags.empty()) flags_overwritten(g, off, size);
    }
    cur->pw = true; cur->pw_reg = g->id; cur->pw_off = off; cur->pw_size = size; cur->pw_addr = (const char *)p;
  } else {
    if (cur->pool.size() >= 24) cur->pool.erase(cur->pool.begin());
    cur->pool.push_back({g->id, off, size, rdmem(p, size)});
  }
}
static void vol(const void *p, int size, bool write) {
  if (!cur || !in_arena(p)) return;
  long off;
  Mapping *m = map_of(p);
  if (!m) fail("oob", "%s outside every buffer", write ? "write" : "read");
  Region *g = m->reg; off = (uintptr_t)p - m->start;
  if (m->ro && write) fail("crash", "write to a read-only attachment of %s", g->name.c_str());
  check_bounds(g, off, size, write ? "write" : "read");
  if (g->kind != RK_SHM) { plain(p, size, write); return; }
  resolve_pending(); flush_flag();
  cur->pool.clear();
  yield_point();
  g_events++;
  if (write) {
    if (cur->spin_loc >= 0) { cur->spin_loc = -1; cur->spin_cnt = 0; }
    flagloc(g, off, size);
    if ((int)pendflag.size() < NR) pendflag.resize(NR);
    pendflag[cur->id] = {true, g, off, size};
  } else flag_read(g, off, size, (const char *)p);
}
// called at every boundary between library and simulator
void boundary() { if (cur) { resolve_pending(); flush_flag(); } }

// a range access made on behalf of the current rank (memcpy, MPI)
void heap_range(const void *p, size_t n, const char *what);
void range_read(const void *p, size_t n) {
  heap_range(p, n, "send");
  if (!n) return; long off;
  if (in_arena(p)) { Region *g = data_region(p, n, &off, false); if (g->kind == RK_USER && cur && g->owner != cur->id) fail("oob", "read of a user buffer of rank %d", g->owner); }
}
void range_write(const void *p, size_t n) {
  heap_range(p, n, "receive");
  if (!n) return; long off;
  if (in_arena(p)) {
    Region *g = data_region(p, n, &off, false);
    Mapping *m = map_of(p);
    if (m->ro) fail("crash", "write to a read-only attachment of %s", g->name.c_str());
    if (g->kind == RK_USER && cur && g->owner != cur->id) fail("oob", "write of a user buffer of rank %d", g->owner);
    if (g->kind == RK_SHM) flags_overwritten(g, off, n);
  }
}

// a range in the library's own heap stays within its block
void heap_range(const void *p, size_t n, const char *what) {
  if (!cur || !n || in_arena(p)) return;
  auto it = cur->heap.upper_bound((void *)p);
  if (it == cur->heap.begin()) return;
  --it; uintptr_t s = (uintptr_t)it->first, a = (uintptr_t)p;
  if (a >= s + it->second.size) return;
  if (a + n > s + it->second.size) fail("oob", "%s of %zu bytes at offset %zu of a heap block of %zu bytes", what, n, (size_t)(a - s), it->second.size);
}
extern "C" {
// ------------------------------------------------------------ compiler instrumentation entry points
#define RW(S) \
 void __tsan_read##S(void *p) { plain(p, S, false); } void __tsan_write##S(void *p) { plain(p, S, true); } \
 void __tsan_unaligned_read##S(void *p) { plain(p, S, false); } void __tsan_unaligned_write##S(void *p) { plain(p, S, true); } \
 void __tsan_volatile_read##S(void *p) { vol(p, S, false); } void __tsan_volatile_write##S(void *p) { vol(p, S, true); } \
 void __tsan_unaligned_volatile_read##S(void *p) { vol(p, S, false); } void __tsan_unaligned_volatile_write##S(void *p) { vol(p, S, true); }
RW(1) RW(2) RW(4) RW(8)
void __tsan_read16(void *p) { plain(p, 8, false); plain((char *)p + 8, 8, false); }
void __tsan_write16(void *p) { plain(p, 8, true); plain((char *)p + 8, 8, true); }
void __tsan_unaligned_read16(void *p) { __tsan_read16(p); }
void __tsan_unaligned_write16(void *p) { __tsan_write16(p); }
void __tsan_volatile_read16(void *p) { __tsan_read16(p); }
void __tsan_volatile_write16(void *p) { __tsan_write16(p); }
void __tsan_read_range(void *p, unsigned long n) { for (unsigned long i = 0; i + 8 <= n; i += 8) plain((char *)p + i, 8, false); if (n % 8) plain((char *)p + n - n % 8, n % 8, false); }
void __tsan_write_range(void *p, unsigned long n) { for (unsigned long i = 0; i + 8 <= n; i += 8) plain((char *)p + i, 8, true); if (n % 8) plain((char *)p + n - n % 8, n % 8, true); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}
#define AT(B, T) \
 T __tsan_atomic##B##_load(const volatile T *p, int) { vol((const void *)p, sizeof(T), false); T v = *p; boundary(); return v; } \
 void __tsan_atomic##B##_store(volatile T *p, T v, int) { vol((const void *)p, sizeof(T), true); *p = v; boundary(); } \
 T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { boundary(); vol((const void *)p, sizeof(T), true); T o = *p; *p = v; boundary(); return o; } \
 T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { vol((const void *)p, sizeof(T), true); T o = *p; *p = o + v; boundary(); return o; } \
 T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { vol((const void *)p, sizeof(T), true); T o = *p; *p = o - v; boundary(); return o; } \
 T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { vol((const void *)p, sizeof(T), true); T o = *p; *p = o | v; boundary(); return o; } \
 T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { vol((const void *)p, sizeof(T), true); T o = *p; *p = o & v; boundary(); return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { vol((const void *)p, sizeof(T), true); T o = *p; if (o == *e) { *p = v; boundary(); return 1; } *e = o; boundary(); return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, a, b); } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int a, int b) { __tsan_atomic##B##_compare_exchange_strong(p, &e, v, a, b); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------ libc wrapped at link time of the library
static void copyrec(void *d, const void *s, size_t n) {
  if (!n) return;
  boundary();
  heap_range(d, n, "copy into"); heap_range(s, n, "copy from");
  bool ad = in_arena(d), as = in_arena(s);
  long od, os;
  Region *gd = ad ? data_region(d, n, &od, false) : heap_region(d, &od);
  Region *gs = as ? data_region(s, n, &os, false) : heap_region(s, &os);
  if (gd && !gs && !as) gs = make_heap_region(s, &os);
  if (gs && !gd && !ad) gd = make_heap_region(d, &od);
  if (!gd && !gs) return;
  if (gd && gd->kind == RK_HEAP) check_bounds(gd, od, n, "copy into");
  if (gs && gs->kind == RK_HEAP) check_bounds(gs, os, n, "copy from");
  if (ad) range_write(d, n);
  if (as) range_read(s, n);
  if (cur->spin_loc >= 0) { cur->spin_loc = -1; cur->spin_cnt = 0; }
  progress_made();
  maybe_switch();
  if (gd && gs) { Op o; o.k = 'C'; o.r0 = gd->id; o.o0 = od; o.r1 = gs->id; o.o1 = os; o.len = n; rec(std::move(o)); }
  else if (gd) { Op o; o.k = 'X'; o.r0 = gd->id; o.o0 = od; o.len = n; rec(std::move(o)); }
}
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (cur) {
    if (n && (const char *)d < (const char *)s + n && (const char *)s < (const char *)d + n && d != s && in_arena(d)) fail("oob", "memcpy of overlapping ranges");
    copyrec(d, s, n);
  }
  return memmove(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) { if (cur) copyrec(d, s, n); return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) {
  if (cur && n) {
    boundary(); long off;
    Region *g = in_arena(d) ? data_region(d, n, &off, false) : heap_region(d, &off);
    if (g) { if (in_arena(d)) range_write(d, n); Op o; o.k = c ? 'X' : 'Z'; o.r0 = g->id; o.o0 = off; o.len = n; rec(std::move(o)); }
  }
  return memset(d, c, n);
}
// heap blocks of the library carry guard bytes on both sides, checked when they are released and at the end
static const size_t GF = 16, GB = 64;
static void guard_set(char *b, size_t n) { memset(b, 0xF5, GF); memset(b + GF + n, 0xF5, GB); }
static void guard_check(Rank *r, char *p, size_t n) {
  for (size_t i = 1; i <= GF; i++) if ((unsigned char)p[-(long)i] != 0xF5) { cur = r; fail("oob", "write %zu bytes before a heap block of %zu bytes", i, n); }
  for (size_t i = 0; i < GB; i++) if ((unsigned char)p[n + i] != 0xF5) { cur = r; fail("oob", "write %zu bytes behind a heap block of %zu bytes", i + 1, n); }
}
void heap_guards() { for (auto *r : ranks) for (auto &b : r->heap) guard_check(r, (char *)b.first, b.second.size); }
void *__wrap_malloc(size_t n) {
  if (!cur) return malloc(n ? n : 1);
  char *b = (char *)malloc(n + GF + GB); if (!b) return nullptr;
  guard_set(b, n); char *p = b + GF;
  if (opt.fill >= 0 && n <= (8u << 20)) memset(p, opt.fill, n);
  cur->heap[p] = {n, -1, cur->inno}; cur->heap_live += n;
  return p;
}
void *__wrap_calloc(size_t a, size_t c) {
  if (!cur) return calloc(a, c ? c : 1);
  size_t n = a * c; char *b = (char *)calloc(1, n + GF + GB); if (!b) return nullptr;
  guard_set(b, n); char *p = b + GF;
  cur->heap[p] = {n, -1, cur->inno}; cur->heap_live += n;
  return p;
}
void __wrap_free(void *p) {
  if (!p) return;
  if (!cur) { free(p); return; }
  auto it = cur->heap.find(p);
  if (it == cur->heap.end()) {
    if (in_arena(p)) fail("crash", "free of a pointer that is not from malloc");
    for (auto *r : ranks) if (r != cur && r->heap.count(p)) fail("crash", "free of another rank's memory");
    fail("crash", "free of a pointer that is not allocated (double free)");
  }
  guard_check(cur, (char *)p, it->second.size);
  cur->heap_live -= it->second.size;
  if (opt.fill >= 0 && it->second.size <= (8u << 20)) memset(p, 0xDD, it->second.size);
  cur->heap.erase(it);
  if (!heapdata.empty()) { boundary(); auto hd = heapdata.find((uintptr_t)p); if (hd != heapdata.end()) { Region *g = hd->second.second; g->inside = g->inno && g->inno == cur->inno; heapdata.erase(hd); } }
  free((char *)p - GF);
}
void *__wrap_realloc(void *p, size_t n) {
  if (!cur) return realloc(p, n);
  void *q = __wrap_malloc(n);
  if (p) { auto it = cur->heap.find(p); size_t o = it == cur->heap.end() ? 0 : it->second.size; __wrap_memcpy(q, p, o < n ? o : n); __wrap_free(p); }
  return q;
}
char *__wrap_strdup(const char *s) {
  size_t n = strlen(s) + 1; char *q = (char *)__wrap_malloc(n); memcpy(q, s, n); return q;
}
void __wrap_exit(int c) { if (cur) fail("exit", "the library ended the process with status %d", c); exit(c); }
void __wrap_abort() { if (cur) fail("exit", "the library aborted"); abort(); }

// ------------------------------------------------------------ System V shared memory
static std::map<int, Region *> shmids;
static int next_shmid = 1000;
long shm_created = 0, shm_destroyed = 0;
static void shm_maybe_destroy(Region *g) {
  if (g->rmid && g->attached == 0 && !g->dead) {
    g->dead = true; shm_destroyed++; shmids.erase(g->shmid);
    flags_overwritten(g, 0, g->size);
    munmap(g->base, (g->size + 4095) & ~4095ull); close(g->fd); g->base = nullptr;
  }
}
int __wrap_shmget(key_t k, size_t size, int) {
  boundary();
  Region *g = new_region(RK_SHM, size, cur->id, "shm" + std::to_string(next_shmid));
  g->shmid = next_shmid++; shmids[g->shmid] = g; shm_created++; g->inno = cur->inno;
  (void)k;
  return g->shmid;
}
void *__wrap_shmat(int id, const void *, int flg) {
  boundary();
  auto it = shmids.find(id);
  if (it == shmids.end()) { errno = EINVAL; return (void *)-1; }
  Region *g = it->second;
  if (g->owner / opt.ppn != cur->id / opt.ppn) { errno = EINVAL; return (void *)-1; }     // a segment of another node
  g->attached++; cur->attaches++;
  return map_region(g, flg & SHM_RDONLY);
}
int __wrap_shmdt(const void *p) {
  boundary();
  auto it = maps_.find((uintptr_t)p);
  if (it == maps_.end()) { errno = EINVAL; return -1; }
  Region *g = it->second.reg;
  unmap_at((uintptr_t)p);
  g->attached--; cur->attaches--;
  shm_maybe_destroy(g);
  return 0;
}
int __wrap_shmctl(int id, int cmd, struct shmid_ds *) {
  boundary();
  auto it = shmids.find(id);
  if (it == shmids.end()) { errno = EINVAL; return -1; }
  if (cmd == IPC_RMID) { Region *g = it->second; g->rmid = true; g->inside = g->inno && ranks[g->owner]->inno == g->inno; shm_maybe_destroy(g); }
  return 0;
}
}
int shm_live() { return shmids.size(); }
