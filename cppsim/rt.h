// Runtime of the C++ simulator: seeded scheduler over parked pthreads, every
// instrumented memory access / lock / atomic / allocation a possible yield
// point, happens-before race detection, heap tracking, allocation failures.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt {

constexpr int MAXT = 8;

struct Setup
{
  uint64_t seed = 1;
  bool replay = false;      // choices come from the trace
  bool keep_log = false;
  double p_switch = 0.01;   // per memory access
  double p_sync = 0.1;      // per lock/atomic/call boundary
  double p_alloc = 0;       // failure probability of an allocation, while armed
  bool races = true;
  bool fine = true;         // memory accesses are yield points
  long max_steps = 3000000;
  std::vector<std::pair<uint32_t, uint32_t>> trace;
  std::string active;       // comma separated classes that end the run; "" = all
};

// Shared with the parent; the run process fills it and exits.
struct Result
{
  int status;               // 0 running, 1 finished, 2 violation, 3 harness error
  char klass[64];
  char msg[1024];
  uint64_t dig[2], sched[2];
  long steps, switches, accesses, allocs;
  int nfaults;
  struct { char name[40]; long n; } faults[32];
  int nprobes;
  struct { char name[40]; long n; } probes[64];
  int nchoices;
  struct { uint32_t i, v; } choices[60000];
  long loglen;
  char log[4 << 20];
};

extern Result *res;

void begin(const Setup &s);
[[noreturn]] void finish();
[[noreturn]] void harness_error(const std::string &msg);
// Ends the run when `klass` is active; otherwise notes it and returns.
void violation(const char *klass, const std::string &msg);

// Runs the bodies as simulated threads 1..n until all of them returned.
void run_threads(const std::vector<std::function<void()>> &bodies);

int self();                         // simulated thread id, 0 = main
uint64_t rnd();
double uni();
int decide(int n, const std::function<int()> &rand);
bool chance(double p);
void yield(const char *what, bool sync = true);
void log(const char *fmt, ...);
void count_fault(const char *name);
void probe(const char *name);

// Allocation faults: armed per thread around one call into the code under test.
struct Arm
{
  double p = 0;             // each allocation fails with this probability
  long nth[2] = { 0, 0 };   // the nth allocation in region 0/1 fails
};
void arm(const Arm &a);
int disarm();                       // number of allocations that were failed
void region(int delta);             // >0: inside the wrapped library
int region_depth();
void foreign(int delta);            // no yields at all inside (uninstrumented library)

// Heap: tracked blocks with redzones. Used for the code under test's own
// operator new and for buffers the workload hands out.
void *talloc(std::size_t n, bool user);
void tfree(void *p);
// Live block that contains [p, p+n), or false with `why`.
bool inside_live(const void *p, std::size_t n, std::string &why);
void check_redzones(const void *p, const char *what);
long live_blocks();

// Accesses made on behalf of uninstrumented library code.
void access(const void *p, std::size_t n, bool write, const char *what);

// Memory accesses beyond the first n are neither checked nor yield points.
void limit_accesses(long n);

// While > 0 the runtime ignores this thread (workload and runtime code).
struct Quiet { Quiet(); ~Quiet(); };
struct Under { Under(); ~Under(); };  // code under test runs in this scope
}// namespace rt
