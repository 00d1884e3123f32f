#include "rt.h"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <unistd.h>

namespace rt {
Result *res = nullptr;

namespace {
template<typename T> struct RawAlloc
{
  using value_type = T;
  RawAlloc() = default;
  template<typename U> RawAlloc(const RawAlloc<U> &) {}
  T *allocate(std::size_t n) { return static_cast<T *>(std::malloc(n * sizeof(T))); }
  void deallocate(T *p, std::size_t) { std::free(p); }
  template<typename U> bool operator==(const RawAlloc<U> &) const { return true; }
};
template<typename K, typename V> using RawMap = std::map<K, V, std::less<K>, RawAlloc<std::pair<const K, V>>>;

struct VC
{
  uint32_t c[MAXT] = {};
  void join(const VC &o)
  {
    for (int i = 0; i < MAXT; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

struct Thread
{
  sem_t baton;
  bool exists = false, done = false;
  std::function<bool()> *pred = nullptr;
  double prio = 0;
  VC vc;
  const char *what = "start";
  long spin = 0;
};

Setup S;
Thread th[MAXT];
int nthreads = 0;
bool active = false;
sem_t main_baton;
uint64_t rng_state;
uint32_t ndec = 0;
uint32_t tracepos = 0;
uint64_t dig[2] = { 14695981039346656037ull, 1099511628211ull * 7 };
uint64_t sch[2] = { 1469598103934665603ull, 88172645463325252ull };
VC fence_vc;
long access_limit = 0;

thread_local int tl_id = 0;
thread_local int tl_quiet = 0;
thread_local int tl_under = 0;
thread_local int tl_region = 0;
thread_local int tl_foreign = 0;
thread_local bool tl_armed = false;
thread_local Arm tl_arm;
thread_local long tl_count[2];
thread_local int tl_failed = 0;

struct Cell
{
  uint64_t key = 0;
  uint8_t wtid = 0, wmask = 0;
  uint32_t wclk = 0;
  uint32_t rclk[MAXT] = {};
  uint8_t rmask[MAXT] = {};
};
Cell *cells = nullptr;
std::size_t ncells = 0, ncap = 0;

struct Block
{
  std::size_t n;
  bool live;
  bool user;
};
RawMap<uintptr_t, Block> *blocks = nullptr;
constexpr std::size_t RZ = 64;

struct Mutex
{
  int owner = -1;
  int count = 0;
  bool recursive = false;
  VC vc;
};
struct RW
{
  int writer = -1;
  int readers[MAXT] = {};
  VC vc, rvc;
  int nread() const
  {
    int s = 0;
    for (int r : readers) s += r;
    return s;
  }
};
struct Once
{
  int state = 0;
  VC vc;
};
RawMap<uintptr_t, Mutex> *mutexes = nullptr;
RawMap<uintptr_t, RW> *rws = nullptr;
RawMap<uintptr_t, Once> *onces = nullptr;
RawMap<uintptr_t, Once> *guards = nullptr;
RawMap<uintptr_t, VC> *atomics = nullptr;
struct Cond { long gen = 0; long tokens = 0; VC vc; };
RawMap<uintptr_t, Cond> *conds = nullptr;

void mix(uint64_t *d, const char *p, std::size_t n)
{
  for (std::size_t i = 0; i < n; ++i) {
    d[0] = (d[0] ^ static_cast<unsigned char>(p[i])) * 1099511628211ull;
    d[1] = (d[1] + static_cast<unsigned char>(p[i]) + 1) * 6364136223846793005ull + 1442695040888963407ull;
  }
}

void vlog(const char *fmt, va_list ap)
{
  char buf[600];
  int n = snprintf(buf, sizeof buf, "%ld T%d ", res->steps, tl_id);
  n += vsnprintf(buf + n, sizeof buf - n - 2, fmt, ap);
  if (n > static_cast<int>(sizeof buf) - 2) n = sizeof buf - 2;
  buf[n++] = '\n';
  mix(dig, buf, n);
  if (S.keep_log && res->loglen + n < static_cast<long>(sizeof res->log)) {
    memcpy(res->log + res->loglen, buf, n);
    res->loglen += n;
  }
}

[[noreturn]] void die(int status)
{
  res->dig[0] = dig[0];
  res->dig[1] = dig[1];
  res->sched[0] = sch[0];
  res->sched[1] = sch[1];
  res->status = status;
  _exit(0);
}

bool is_active(const char *k)
{
  if (S.active.empty()) return true;
  std::string a = "," + S.active + ",";
  return a.find("," + std::string(k) + ",") != std::string::npos;
}

void choose_and_switch(int cur);

Cell &cell(uint64_t key)
{
  if (ncells * 2 >= ncap) {
    std::size_t nc = ncap ? ncap * 2 : (1 << 14);
    Cell *old = cells;
    cells = static_cast<Cell *>(std::calloc(nc, sizeof(Cell)));
    for (std::size_t i = 0; i < ncap; ++i)
      if (old[i].key) {
        std::size_t h = (old[i].key * 0x9E3779B97F4A7C15ull) >> 20 & (nc - 1);
        while (cells[h].key) h = (h + 1) & (nc - 1);
        cells[h] = old[i];
      }
    std::free(old);
    ncap = nc;
  }
  std::size_t h = (key * 0x9E3779B97F4A7C15ull) >> 20 & (ncap - 1);
  while (cells[h].key && cells[h].key != key) h = (h + 1) & (ncap - 1);
  if (!cells[h].key) {
    cells[h].key = key;
    ++ncells;
  }
  return cells[h];
}

void forget(uintptr_t a, std::size_t n)
{
  for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3; ++k) {
    Cell &c = cell(k);
    c.wmask = 0;
    memset(c.rmask, 0, sizeof c.rmask);
  }
}

void race_check(uintptr_t a, std::size_t n, bool write, const char *what)
{
  const int me = tl_id;
  VC &vc = th[me].vc;
  for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3; ++k) {
    uintptr_t lo = k << 3, hi = lo + 8;
    uintptr_t x = a > lo ? a : lo, y = a + n < hi ? a + n : hi;
    uint8_t mask = static_cast<uint8_t>(((1u << (y - x)) - 1) << (x - lo));
    Cell &c = cell(k);
    if ((c.wmask & mask) && c.wtid != me && c.wclk > vc.c[c.wtid]) {
      char b[160];
      snprintf(b, sizeof b, "%s in thread %d without synchronisation after a write in thread %d (%s)",
        write ? "write" : "read", me, c.wtid, what);
      violation("data-race", b);
      c.wmask = 0;
    }
    if (write)
      for (int t = 0; t < MAXT; ++t)
        if (t != me && (c.rmask[t] & mask) && c.rclk[t] > vc.c[t]) {
          char b[160];
          snprintf(b, sizeof b, "write in thread %d without synchronisation after a read in thread %d (%s)", me, t, what);
          violation("data-race", b);
          c.rmask[t] = 0;
        }
    if (write) {
      c.wtid = static_cast<uint8_t>(me);
      c.wclk = vc.c[me];
      c.wmask = mask;
      memset(c.rmask, 0, sizeof c.rmask);
    } else {
      if (c.rclk[me] != vc.c[me]) c.rmask[me] = 0;
      c.rclk[me] = vc.c[me];
      c.rmask[me] |= mask;
    }
  }
}

void heap_check(uintptr_t a, std::size_t n, bool write, const char *what)
{
  auto it = blocks->upper_bound(a);
  if (it != blocks->end() && it->first < a + n + RZ && it->first - RZ < a + n && a < it->first) {
    violation("out-of-bounds", std::string(write ? "write" : "read") + " just before a heap block (" + what + ")");
    return;
  }
  if (it == blocks->begin()) return;
  --it;
  const Block &b = it->second;
  if (a < it->first + b.n + RZ) {
    if (!b.live) {
      violation("use-after-free", std::string(write ? "write to" : "read of") + " freed memory (" + what + ")");
    } else if (a + n > it->first + b.n) {
      violation("out-of-bounds", std::string(write ? "write" : "read") + " past the end of a " + std::to_string(b.n) + " byte block (" + what + ")");
    }
  }
}

bool tracked() { return active && tl_under > 0 && tl_quiet == 0; }

void on_access(const void *p, std::size_t n, bool write, const char *what)
{
  if (!tracked() || n == 0) return;
  ++res->accesses;
  if (access_limit && res->accesses > access_limit) return;
  ++tl_quiet;
  heap_check(reinterpret_cast<uintptr_t>(p), n, write, what);
  if (S.races) race_check(reinterpret_cast<uintptr_t>(p), n, write, what);
  --tl_quiet;
  if (S.fine && !tl_foreign) yield("mem", false);
}

bool runnable(int i)
{
  Thread &t = th[i];
  if (!t.exists || t.done) return false;
  if (t.pred == nullptr) return true;
  ++tl_quiet;
  bool r = (*t.pred)();
  --tl_quiet;
  return r;
}

void wake(int i)
{
  ++res->switches;
  char b[40];
  int n = snprintf(b, sizeof b, "%d:%s;", i, th[i].what);
  mix(sch, b, n);
  sem_post(&th[i].baton);
}

void sem_wait_(sem_t *s)
{
  while (sem_wait(s) != 0) {}
}

// Chooses the next thread; returns -1 when every thread is done.
int choose(int cur, double p)
{
  int r[MAXT], n = 0;
  for (int i = 1; i <= nthreads; ++i)
    if (runnable(i)) r[n++] = i;
  if (n == 0) {
    bool all = true;
    std::string who;
    for (int i = 1; i <= nthreads; ++i)
      if (!th[i].done) {
        all = false;
        who += " T" + std::to_string(i) + "@" + th[i].what;
      }
    if (all) return -1;
    violation("deadlock", "no thread can run:" + who);
    die(1);
  }
  bool cur_ok = false;
  for (int i = 0; i < n; ++i) cur_ok |= r[i] == cur;
  if (n == 1) return r[0];
  if (cur_ok) {
    int others[MAXT], m = 0;
    for (int i = 0; i < n; ++i)
      if (r[i] != cur) others[m++] = r[i];
    int v = decide(n, [&] { return uni() < p ? 1 + static_cast<int>(rnd() % m) : 0; });
    return v == 0 ? cur : others[v - 1];
  }
  return r[decide(n, [&] { return static_cast<int>(rnd() % n); })];
}

void block_until(const char *what, std::function<bool()> pred)
{
  // Runtime-internal wait: the thread is parked until pred() holds.
  ++tl_quiet;
  Thread &t = th[tl_id];
  if (tl_id == 0) {
    if (!pred()) {
      violation("deadlock", std::string("the only thread blocks for ever at ") + what);
      die(1);
    }
    --tl_quiet;
    return;
  }
  while (!pred()) {
    t.what = what;
    t.pred = &pred;
    int nx = choose(-1, 1.0);
    if (nx != tl_id) {
      wake(nx);
      sem_wait_(&t.baton);
    }
    t.pred = nullptr;
  }
  --tl_quiet;
}

struct Finalizer
{
  bool on = false;
  ~Finalizer();
};
thread_local Finalizer tl_final;
}// namespace

void limit_accesses(long n) { access_limit = n; }
Quiet::Quiet() { ++tl_quiet; }
Quiet::~Quiet() { --tl_quiet; }
Under::Under() { ++tl_under; }
Under::~Under() { --tl_under; }

uint64_t rnd()
{
  uint64_t z = (rng_state += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
double uni() { return static_cast<double>(rnd() >> 11) * 0x1.0p-53; }

int self() { return tl_id; }

int decide(int n, const std::function<int()> &rand)
{
  uint32_t i = ndec++;
  int v = 0;
  if (S.replay) {
    while (tracepos < S.trace.size() && S.trace[tracepos].first < i) ++tracepos;
    if (tracepos < S.trace.size() && S.trace[tracepos].first == i) v = static_cast<int>(S.trace[tracepos].second);
    if (v >= n) v = n - 1;
  } else {
    v = rand();
  }
  if (v && res->nchoices >= static_cast<int>(sizeof res->choices / sizeof res->choices[0])) v = 0;   // no room: nothing special from here on
  if (v) {
    res->choices[res->nchoices].i = i;
    res->choices[res->nchoices++].v = static_cast<uint32_t>(v);
  }
  return v;
}
bool chance(double p)
{
  return decide(2, [&] { return uni() < p ? 1 : 0; }) == 1;
}

void log(const char *fmt, ...)
{
  Quiet q;
  va_list ap;
  va_start(ap, fmt);
  vlog(fmt, ap);
  va_end(ap);
}

template<typename A> static void bump(A &arr, int &n, int cap, const char *name)
{
  for (int i = 0; i < n; ++i)
    if (!strcmp(arr[i].name, name)) {
      ++arr[i].n;
      return;
    }
  if (n < cap) {
    snprintf(arr[n].name, sizeof arr[n].name, "%s", name);
    arr[n++].n = 1;
  }
}
void count_fault(const char *name)
{
  bump(res->faults, res->nfaults, 32, name);
  log("FAULT %s", name);
}
void probe(const char *name) { bump(res->probes, res->nprobes, 64, name); }

void violation(const char *klass, const std::string &msg)
{
  Quiet q;
  log("VIOLATION %s %s", klass, msg.c_str());
  if (!is_active(klass)) return;
  snprintf(res->klass, sizeof res->klass, "%s", klass);
  snprintf(res->msg, sizeof res->msg, "%s", msg.c_str());
  die(2);
}

void harness_error(const std::string &msg)
{
  snprintf(res->msg, sizeof res->msg, "%s", msg.c_str());
  die(3);
}

void begin(const Setup &s)
{
  S = s;
  rng_state = s.seed * 0x2545F4914F6CDD1Dull + 12345;
  blocks = new RawMap<uintptr_t, Block>();
  mutexes = new RawMap<uintptr_t, Mutex>();
  rws = new RawMap<uintptr_t, RW>();
  onces = new RawMap<uintptr_t, Once>();
  guards = new RawMap<uintptr_t, Once>();
  atomics = new RawMap<uintptr_t, VC>();
  conds = new RawMap<uintptr_t, Cond>();
  th[0].exists = true;
  th[0].vc.c[0] = 1;
  sem_init(&main_baton, 0, 0);
  active = true;
}

void finish() { die(1); }

void yield(const char *what, bool sync)
{
  if (!active || tl_foreign) return;
  ++res->steps;
  if (res->steps > S.max_steps) {
    violation("no-progress", std::string("step budget used up at ") + what);
    die(1);
  }
  if (tl_id == 0) return;
  ++tl_quiet;
  Thread &t = th[tl_id];
  t.what = what;
  int nx = choose(tl_id, sync ? S.p_sync : S.p_switch);
  if (nx != tl_id) {
    wake(nx);
    sem_wait_(&t.baton);
  }
  --tl_quiet;
}

namespace {
struct Start
{
  int id;
  const std::function<void()> *body;
};
void *thread_main(void *a)
{
  Start *st = static_cast<Start *>(a);
  tl_id = st->id;
  tl_final.on = true;            // first thread_local constructed => destroyed last
  sem_wait_(&th[tl_id].baton);
  try {
    (*st->body)();
  } catch (...) {
    harness_error("a workload thread threw");
  }
  ++tl_under;                    // thread_local destructors are code under test
  return nullptr;
}
Finalizer::~Finalizer()
{
  if (!on) return;
  ++tl_quiet;
  Thread &t = th[tl_id];
  t.done = true;
  log("exit");
  ++t.vc.c[tl_id];
  th[0].vc.join(t.vc);
  int nx = choose(-1, 1.0);
  if (nx < 0)
    sem_post(&main_baton);
  else
    wake(nx);
}
}// namespace

void run_threads(const std::vector<std::function<void()>> &bodies)
{
  Quiet q;
  nthreads = static_cast<int>(bodies.size());
  if (nthreads >= MAXT) harness_error("too many threads");
  static Start st[MAXT];
  pthread_t pt[MAXT];
  for (int i = 1; i <= nthreads; ++i) {
    uint32_t c = th[i].vc.c[i];
    th[i] = Thread();
    th[i].exists = true;
    th[i].vc = th[0].vc;
    th[i].vc.c[i] = c + 1;
    sem_init(&th[i].baton, 0, 0);
    st[i] = Start{ i, &bodies[static_cast<std::size_t>(i - 1)] };
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 8 << 20);
    if (pthread_create(&pt[i], &at, thread_main, &st[i]) != 0) harness_error("pthread_create");
  }
  ++th[0].vc.c[0];
  int nx = choose(-1, 1.0);
  if (nx >= 0) {
    wake(nx);
    sem_wait_(&main_baton);
  }
  for (int i = 1; i <= nthreads; ++i) pthread_join(pt[i], nullptr);
  nthreads = 0;
}

void arm(const Arm &a)
{
  tl_arm = a;
  tl_armed = true;
  tl_count[0] = tl_count[1] = 0;
  tl_failed = 0;
}
int disarm()
{
  tl_armed = false;
  return tl_failed;
}
void region(int d) { tl_region += d; }
int region_depth() { return tl_region; }
void foreign(int d) { tl_foreign += d; }

static bool alloc_fails()
{
  ++res->allocs;
  if (!tl_armed) return false;
  int r = tl_region > 0 ? 1 : 0;
  long k = ++tl_count[r];
  bool f = tl_arm.nth[r] == k;
  if (!f && tl_arm.p > 0) f = chance(tl_arm.p);
  if (f) {
    ++tl_failed;
    count_fault(r ? "alloc-in-library" : "alloc");
  }
  return f;
}

void *talloc(std::size_t n, bool user)
{
  Quiet q;
  char *p = static_cast<char *>(std::malloc(n + 2 * RZ + 16));
  if (!p) return nullptr;
  p = reinterpret_cast<char *>((reinterpret_cast<uintptr_t>(p) + RZ + 15) & ~uintptr_t(15));
  memset(p - RZ + 16, 0xFA, RZ - 16);
  memset(p + n, 0xFA, RZ - 16);
  memset(p, user ? 0xAB : 0xCD, n);
  (*blocks)[reinterpret_cast<uintptr_t>(p)] = Block{ n, true, user };
  forget(reinterpret_cast<uintptr_t>(p), n ? n : 1);
  return p;
}
void check_redzones(const void *vp, const char *what)
{
  Quiet q;
  auto it = blocks->find(reinterpret_cast<uintptr_t>(vp));
  if (it == blocks->end()) return;
  const unsigned char *p = static_cast<const unsigned char *>(vp);
  for (std::size_t i = 0; i < RZ - 16; ++i)
    if (p[it->second.n + i] != 0xFA || p[-static_cast<long>(i) - 1] != 0xFA) {
      violation("out-of-bounds", std::string("memory next to a ") + std::to_string(it->second.n) + " byte block was overwritten (" + what + ")");
      return;
    }
}
void tfree(void *p)
{
  if (!p) return;
  Quiet q;
  auto it = blocks->find(reinterpret_cast<uintptr_t>(p));
  if (it == blocks->end()) return;
  if (!it->second.live) {
    violation("use-after-free", "double free");
    return;
  }
  check_redzones(p, "at free");
  if (S.races && it->second.n && tl_under) race_check(reinterpret_cast<uintptr_t>(p), it->second.n, true, "free");
  it->second.live = false;
  memset(p, 0xDB, it->second.n);
}
bool inside_live(const void *vp, std::size_t n, std::string &why)
{
  Quiet q;
  uintptr_t a = reinterpret_cast<uintptr_t>(vp);
  auto it = blocks->upper_bound(a);
  if (it == blocks->begin()) {
    why = "not heap memory";
    return false;
  }
  --it;
  if (a >= it->first + it->second.n + (it->second.n == 0)) {
    why = "not inside a heap block";
    return false;
  }
  if (!it->second.live) {
    why = "freed memory";
    return false;
  }
  if (a + n > it->first + it->second.n) {
    why = "only " + std::to_string(it->first + it->second.n - a) + " of " + std::to_string(n) + " bytes";
    return false;
  }
  return true;
}
long live_blocks()
{
  long n = 0;
  for (auto &b : *blocks) n += b.second.live && !b.second.user;
  return n;
}

void access(const void *p, std::size_t n, bool write, const char *what) { on_access(p, n, write, what); }

// ------------------------------------------------------------ synchronisation
namespace {
void acquire(const VC &v) { th[tl_id].vc.join(v); }
void release(VC &v)
{
  v.join(th[tl_id].vc);
  ++th[tl_id].vc.c[tl_id];
}
void release_store(VC &v)
{
  v = th[tl_id].vc;
  ++th[tl_id].vc.c[tl_id];
}
int do_lock(void *m, bool try_)
{
  yield("lock");
  Quiet q;
  Mutex &x = (*mutexes)[reinterpret_cast<uintptr_t>(m)];
  if (x.owner == tl_id && x.count > 0) {
    int kind = static_cast<pthread_mutex_t *>(m)->__data.__kind & 127;
    if (kind == PTHREAD_MUTEX_RECURSIVE_NP) {
      ++x.count;
      return 0;
    }
    if (try_) return EBUSY;
    violation("deadlock", "a thread locks a mutex it already holds");
    die(1);
  }
  if (try_ && x.count > 0) return EBUSY;
  block_until("lock", [&x] { return x.count == 0; });
  x.owner = tl_id;
  x.count = 1;
  acquire(x.vc);
  return 0;
}
int do_unlock(void *m)
{
  {
    Quiet q;
    Mutex &x = (*mutexes)[reinterpret_cast<uintptr_t>(m)];
    if (x.count == 0 || x.owner != tl_id) {
      violation("bad-unlock", "a thread unlocks a mutex it does not hold");
      return 0;
    }
    if (--x.count == 0) {
      x.owner = -1;
      release(x.vc);
    }
  }
  yield("unlock");
  return 0;
}
int do_rw(void *m, bool write, bool try_)
{
  yield("rwlock");
  Quiet q;
  RW &x = (*rws)[reinterpret_cast<uintptr_t>(m)];
  auto free_ = [&x, write] { return x.writer < 0 && (!write || x.nread() == 0); };
  if (try_ && !free_()) return EBUSY;
  if (x.writer == tl_id || (write && x.readers[tl_id])) {
    violation("deadlock", "a thread locks a shared mutex it already holds");
    die(1);
  }
  block_until("rwlock", free_);
  acquire(x.vc);
  if (write) {
    acquire(x.rvc);
    x.writer = tl_id;
  } else
    ++x.readers[tl_id];
  return 0;
}
int do_rwunlock(void *m)
{
  {
    Quiet q;
    RW &x = (*rws)[reinterpret_cast<uintptr_t>(m)];
    if (x.writer == tl_id) {
      x.writer = -1;
      release(x.vc);
    } else if (x.readers[tl_id]) {
      --x.readers[tl_id];
      release(x.rvc);
    } else
      violation("bad-unlock", "a thread unlocks a shared mutex it does not hold");
  }
  yield("rwunlock");
  return 0;
}
VC &avc(const volatile void *p) { return (*atomics)[reinterpret_cast<uintptr_t>(p)]; }
void atomic_point(const volatile void *p, std::size_t n, bool write)
{
  if (!tracked()) return;
  ++tl_quiet;
  heap_check(reinterpret_cast<uintptr_t>(p), n, write, "atomic");
  --tl_quiet;
  Thread &t = th[tl_id];
  if (!write && ++t.spin > 300) {       // a spinning reader lets others run
    t.spin = 0;
    ++tl_quiet;
    bool other = false;
    block_until("spin", [&other] { bool r = other; other = true; return r; });
    --tl_quiet;
  }
  if (write) t.spin = 0;
  yield("atomic");
}
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void sync_load(const volatile void *p, int mo)
{
  if (!tracked()) return;
  Quiet q;
  if (acq(mo)) acquire(avc(p));
}
void sync_store(const volatile void *p, int mo)
{
  if (!tracked()) return;
  Quiet q;
  if (rel(mo))
    release_store(avc(p));
  else
    avc(p) = VC();
}
void sync_rmw(const volatile void *p, int mo)
{
  if (!tracked()) return;
  Quiet q;
  VC &v = avc(p);
  if (acq(mo)) acquire(v);
  if (rel(mo)) release(v);
}
}// namespace

template<typename F> F real(const char *name)
{
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
}// namespace rt

using namespace rt;

extern "C" {
// ------------------------------------------------------------------- pthread
#define REAL(ret, name, ...) static auto f = rt::real<ret (*)(__VA_ARGS__)>(#name)
int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
  REAL(int, pthread_mutex_lock, pthread_mutex_t *);
  return tracked() && !tl_foreign ? do_lock(m, false) : f(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
  REAL(int, pthread_mutex_trylock, pthread_mutex_t *);
  return tracked() && !tl_foreign ? do_lock(m, true) : f(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
  REAL(int, pthread_mutex_unlock, pthread_mutex_t *);
  return tracked() && !tl_foreign ? do_unlock(m) : f(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept
{
  REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *);
  return tracked() && !tl_foreign ? do_rw(m, false, false) : f(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept
{
  REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *);
  return tracked() && !tl_foreign ? do_rw(m, true, false) : f(m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) noexcept
{
  REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *);
  return tracked() && !tl_foreign ? do_rw(m, false, true) : f(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) noexcept
{
  REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *);
  return tracked() && !tl_foreign ? do_rw(m, true, true) : f(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept
{
  REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *);
  return tracked() && !tl_foreign ? do_rwunlock(m) : f(m);
}
int pthread_spin_lock(pthread_spinlock_t *m) noexcept
{
  REAL(int, pthread_spin_lock, pthread_spinlock_t *);
  return tracked() && !tl_foreign ? do_lock(const_cast<int *>(m), false) : f(m);
}
int pthread_spin_unlock(pthread_spinlock_t *m) noexcept
{
  REAL(int, pthread_spin_unlock, pthread_spinlock_t *);
  return tracked() && !tl_foreign ? do_unlock(const_cast<int *>(m)) : f(m);
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
  REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *);
  if (!tracked() || tl_foreign) return f(c, m);
  Cond &x = (*conds)[reinterpret_cast<uintptr_t>(c)];
  long g = x.gen;
  do_unlock(m);
  block_until("cond", [&x, g] { return x.gen > g && x.tokens > 0; });
  --x.tokens;
  acquire(x.vc);
  do_lock(m, false);
  return 0;
}
int pthread_cond_signal(pthread_cond_t *c) noexcept
{
  REAL(int, pthread_cond_signal, pthread_cond_t *);
  if (!tracked() || tl_foreign) return f(c);
  Cond &x = (*conds)[reinterpret_cast<uintptr_t>(c)];
  ++x.gen;
  ++x.tokens;
  release(x.vc);
  yield("signal");
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept
{
  REAL(int, pthread_cond_broadcast, pthread_cond_t *);
  if (!tracked() || tl_foreign) return f(c);
  Cond &x = (*conds)[reinterpret_cast<uintptr_t>(c)];
  ++x.gen;
  x.tokens += MAXT;
  release(x.vc);
  yield("broadcast");
  return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)(void))
{
  REAL(int, pthread_once, pthread_once_t *, void (*)(void));
  if (!tracked() || tl_foreign) return f(o, fn);
  yield("once");
  Once *x;
  {
    Quiet q;
    x = &(*onces)[reinterpret_cast<uintptr_t>(o)];
  }
  block_until("once", [x] { return x->state != 1; });
  if (x->state == 2) {
    acquire(x->vc);
    return 0;
  }
  x->state = 1;
  try {
    fn();
  } catch (...) {
    x->state = 0;
    throw;
  }
  x->state = 2;
  release(x->vc);
  return 0;
}
int sched_yield() noexcept
{
  REAL(int, sched_yield);
  if (!tracked()) return f();
  bool other = false;
  block_until("sched_yield", [&other] { bool r = other; other = true; return r; });
  return 0;
}

// --------------------------------------------------------- static-local guards
int sim_guard_acquire(uint64_t *g) asm("__cxa_guard_acquire");
void sim_guard_release(uint64_t *g) noexcept asm("__cxa_guard_release");
void sim_guard_abort(uint64_t *g) noexcept asm("__cxa_guard_abort");
int sim_guard_acquire(uint64_t *g)
{
  char *b = reinterpret_cast<char *>(g);
  if (!tracked()) {
    if (*b) return 0;
    if (active && tl_id != 0 && b[1]) {
      // contended outside the code under test: cannot happen in a run
      harness_error("static guard contended outside the code under test");
    }
    b[1] = 1;
    return 1;
  }
  yield("guard");
  Once *x;
  {
    Quiet q;
    x = &(*guards)[reinterpret_cast<uintptr_t>(g)];
  }
  block_until("guard", [b] { return b[1] == 0 || b[0] != 0; });
  if (b[0]) {
    acquire(x->vc);
    return 0;
  }
  b[1] = 1;
  return 1;
}
void sim_guard_release(uint64_t *g) noexcept
{
  char *b = reinterpret_cast<char *>(g);
  if (tracked()) {
    Quiet q;
    release((*guards)[reinterpret_cast<uintptr_t>(g)].vc);
    release(avc(g));
  }
  b[0] = 1;
  b[1] = 0;
}
void sim_guard_abort(uint64_t *g) noexcept { reinterpret_cast<char *>(g)[1] = 0; }

// ---------------------------------------------------------------------- tsan
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { on_access(p, 8, true, "vptr"); }
void __tsan_vptr_read(void **p) { on_access(p, 8, false, "vptr"); }
#define RW_N(N)                                                                        \
  void __tsan_read##N(void *p) { on_access(p, N, false, "read"); }                      \
  void __tsan_write##N(void *p) { on_access(p, N, true, "write"); }                     \
  void __tsan_unaligned_read##N(void *p) { on_access(p, N, false, "read"); }            \
  void __tsan_unaligned_write##N(void *p) { on_access(p, N, true, "write"); }           \
  void __tsan_volatile_read##N(void *p) { on_access(p, N, false, "read"); }             \
  void __tsan_volatile_write##N(void *p) { on_access(p, N, true, "write"); }            \
  void __tsan_read##N##_pc(void *p, void *) { on_access(p, N, false, "read"); }         \
  void __tsan_write##N##_pc(void *p, void *) { on_access(p, N, true, "write"); }
RW_N(1)
RW_N(2)
RW_N(4)
RW_N(8)
RW_N(16)
void __tsan_read_range(void *p, unsigned long n) { on_access(p, n, false, "read"); }
void __tsan_write_range(void *p, unsigned long n) { on_access(p, n, true, "write"); }

#define ATOMICS(B, T)                                                                                       \
  T __tsan_atomic##B##_load(const volatile T *p, int mo)                                                    \
  {                                                                                                         \
    atomic_point(p, sizeof(T), false);                                                                      \
    sync_load(p, mo);                                                                                       \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                            \
  }                                                                                                         \
  void __tsan_atomic##B##_store(volatile T *p, T v, int mo)                                                 \
  {                                                                                                         \
    atomic_point(p, sizeof(T), true);                                                                       \
    sync_store(p, mo);                                                                                      \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                               \
  }                                                                                                         \
  T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo)                                                 \
  {                                                                                                         \
    atomic_point(p, sizeof(T), true);                                                                       \
    sync_rmw(p, mo);                                                                                        \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                     \
  }                                                                                                         \
  T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo)                                                \
  {                                                                                                         \
    atomic_point(p, sizeof(T), true);                                                                       \
    sync_rmw(p, mo);                                                                                        \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                      \
  }                                                                                                         \
  T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo)                                                \
  {                                                                                                         \
    atomic_point(p, sizeof(T), true);                                                                       \
    sync_rmw(p, mo);                                                                                        \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                      \
  }                                                                                                         \
  T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo)                                                \
  {                                                                                                         \
    atomic_point(p, sizeof(T), true);                                                                       \
    sync_rmw(p, mo);                                                                                        \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                      \
  }                                                                                                         \
  T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo)                                                 \
  {                                                                                                         \
    atomic_point(p, sizeof(T), true);                                                                       \
    sync_rmw(p, mo);                                                                                        \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                       \
  }                                                                                                         \
  T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int mo)                                                \
  {                                                                                                         \
    atomic_point(p, sizeof(T), true);                                                                       \
    sync_rmw(p, mo);                                                                                        \
    return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                      \
  }                                                                                                         \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo)                 \
  {                                                                                                         \
    atomic_point(p, sizeof(T), true);                                                                       \
    int ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);               \
    if (ok)                                                                                                 \
      sync_rmw(p, mo);                                                                                      \
    else                                                                                                    \
      sync_load(p, fmo);                                                                                    \
    return ok;                                                                                              \
  }                                                                                                         \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo)                   \
  {                                                                                                         \
    return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo);                                    \
  }                                                                                                         \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo)                       \
  {                                                                                                         \
    __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fmo);                                          \
    return e;                                                                                               \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int)
{
  if (!tracked()) return;
  yield("fence");
  Quiet q;
  acquire(fence_vc);
  release(fence_vc);
  for (auto &a : *atomics) acquire(a.second);
}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------- memory functions (--wrap)
void *__real_memcpy(void *, const void *, std::size_t);
void *__real_memmove(void *, const void *, std::size_t);
void *__real_memset(void *, int, std::size_t);
void *__wrap_memcpy(void *d, const void *s, std::size_t n)
{
  if (tracked()) {
    on_access(s, n, false, "memcpy");
    on_access(d, n, true, "memcpy");
  }
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, std::size_t n)
{
  if (tracked()) {
    on_access(s, n, false, "memmove");
    on_access(d, n, true, "memmove");
  }
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, std::size_t n)
{
  if (tracked()) on_access(d, n, true, "memset");
  return __real_memset(d, c, n);
}
// std::map's out-of-line rebalancing writes the header and the parent node.
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void *, void *, void *);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void *x, void *p, void *h)
{
  if (tracked()) {
    on_access(p, 32, true, "map insert");
    on_access(h, 32, true, "map insert");
  }
  __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
}
}// extern "C"

// ---------------------------------------------------------------- operator new
static void *do_new(std::size_t n, bool nothrow)
{
  if (!tracked()) {
    void *p = std::malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
  }
  bool fail;
  {
    Quiet q;
    fail = alloc_fails() || n > (std::size_t(1) << 32);
  }
  if (!tl_foreign) yield("new", false);
  if (fail) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  return talloc(n, false);
}
static void do_delete(void *p)
{
  if (!p) return;
  if (active) {
    bool mine;
    {
      Quiet q;
      mine = blocks->find(reinterpret_cast<uintptr_t>(p)) != blocks->end();
    }
    if (mine) {
      tfree(p);
      return;
    }
    return;      // from before the run: never reused, so addresses stay unique
  }
  std::free(p);
}
void *operator new(std::size_t n) { return do_new(n, false); }
void *operator new[](std::size_t n) { return do_new(n, false); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return do_new(n, true); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return do_new(n, true); }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, std::size_t) noexcept { do_delete(p); }
void operator delete[](void *p, std::size_t) noexcept { do_delete(p); }
