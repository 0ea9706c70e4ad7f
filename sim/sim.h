// Simulated world: N copies of the library under test, one per rank, run as coroutines of one
// process under a seeded scheduler, on simulated MPI and simulated System-V shared memory.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ucontext.h>
#include <csetjmp>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <deque>
#include <functional>
#include <memory>
#include <mpi.h>

typedef std::vector<int> VC;

// ---- regions of data memory ------------------------------------------------------------------
enum RegKind { RK_SHM, RK_USER, RK_HEAP };
struct Region {
  int id; RegKind kind; size_t size; int owner;      // owner: rank (user/heap) or creator (shm)
  char *base;                                        // kernel-side alias, always writable
  int shmid = -1; int attached = 0; bool rmid = false, dead = false;
  std::string name;
  int fd = -1;
  int coll = -1, role = 0;                           // user buffers: collective index, 0 send 1 recv
  long inno = 0; bool inside = false;                // made within one call of an init function, and released within it
};

// ---- recorded operations (per rank program) ---------------------------------------------------
struct Op {
  char k;            // U user-write, K user-read(check), C copy, R reduce, S 3-addr sum, Z const, X opaque
                     // W flag write, F flag read, I isend, V irecv, A complete, B mpi collective
                     // g start, e end (start of / completed call) markers
  int r0 = -1; long o0 = 0;   // destination region / offset
  int r1 = -1; long o1 = 0;   // source
  int r2 = -1; long o2 = 0;   // second source
  long len = 0;
  int a = 0, b = 0, c = 0, d = 0;
  int esz = 0;
  std::vector<int> list;
};

struct HeapBlk { size_t size; int region; long inno = 0; };

struct Rank {
  int id = -1;
  void *dl = nullptr;
  ucontext_t ctx;
  char *stack = nullptr;
  bool finished = false, started = false;
  // blocking condition: runnable when cond() is true (nullptr: runnable)
  std::function<bool()> cond;
  const char *what = "";
  VC vc;
  std::vector<Op> prog;
  bool recording = true;
  // plain-access tracking
  struct PRead { int reg; long off; int size; uint64_t v; };
  std::vector<PRead> pool;
  bool pw = false; int pw_reg = -1; long pw_off = 0; int pw_size = 0; const char *pw_addr = nullptr;
  // stale value to restore
  bool poked = false; char *poke_addr = nullptr; uint64_t poke_val = 0; int poke_size = 0;
  std::map<long long, int> seen;    // flag location -> last history index seen
  long long spin_loc = -1; int spin_cnt = 0;
  std::map<void *, HeapBlk> heap;
  size_t heap_live = 0;
  double clock = 0;
  uint64_t clockrng = 1;
  long steps = 0;
  long prio = 0;
  int inlib = 0;
  long inno = 0, inits = 0;     // which call of an init function is under way (0: none)
  int attaches = 0;
  int comms_live = 0, reqs_live = 0;
  bool incall = false;          // inside a call of the library
  void *next_req = nullptr;     // where the next request is put (operation rv)
  std::vector<void *> ustarts;  // requests the underlying MPI was asked to start
};

extern std::vector<Rank *> ranks;
extern Rank *cur;
extern int NR;
extern struct Options {
  uint64_t seed = 1;
  int ppn = 1 << 30;            // ranks per physical node
  std::string sched = "rand";   // rand, seq, rr, prio
  std::string net = "mixed";    // eager, rdv, mixed
  int stale = 1;                // 0 newest, 1 oldest first, 2 random
  int fill = 0xA5;              // fill of malloc'ed memory
  int dataswitch = 8;           // switch at a plain data access with probability 1/dataswitch (0: never)
  long maxsteps = 40000000;
  int pollex = 0;               // percentage of test calls during which no other rank makes progress
  int reqaddr = 0;              // 0 malloc, 1 lifo pool, 2 colliding low byte sums
  int record = 1;
} opt;

uint64_t rnd();
[[noreturn]] void fail(const char *kind, const char *fmt, ...);
void block(const char *what, std::function<bool()> cond);
extern int poll_owner; extern long poll_steps;
void yield_point();
void resolve_pending();
void join(VC &a, const VC &b);
void rec(Op &&o);
Region *region_of(const void *p, long *off);
Region *new_region(RegKind k, size_t size, int owner, const std::string &name);
char *map_region(Region *g, bool ro);
Region *data_region(const void *p, size_t n, long *off, bool create);
void data_event_sync();     // called at every synchronising event: clears the pool of plain reads
extern std::vector<Region *> regions;
void mpi_reset_type_table();
int type_size_of(MPI_Datatype t);
bool net_step();            // let the network make one step; false if nothing to do
bool net_pending();
double sim_time();
extern long g_events;
