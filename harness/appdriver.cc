// Runs the real threaded ExecApplication under a scheduler of our own: one
// thread runs at a time, and at every mutex, semaphore, condition or thread
// operation, and at every memory access of the application's own sources, the
// scheduler may hand the processor to another thread.  What the clients of the
// application can observe is recorded.
//
// usage: appdriver SCENARIOS OUT RUNS SEED
//
// A scenario:   scn ID / plan NAME XML... / op / thr op;op;... / phase / end

#include "common.hh"
#include "TimeAdapter.h"

#include <atomic>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>

using namespace PLEXIL;

//
// The scheduler
//

enum Blk { B_NONE, B_MUTEX, B_SEM, B_COND, B_JOIN, B_SLEEP, B_QUIET, B_DONE };

struct Thr
{
  int id = 0;
  pthread_t pt{};
  bool client = false;
  bool exec = false;           // created by the application
  std::atomic<int> baton{0};
  Blk blk = B_NONE;
  void *obj = nullptr;         // what it waits for
  void *mtx = nullptr;         // mutex to take again after a condition
  bool signaled = false;
  long wake = 0;               // virtual time to wake at; 0: no time limit
  bool timedout = false;
  bool pending = false;        // a signal is waiting
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  void *res = nullptr;
  std::string op;              // what a client is doing
  char *lo = nullptr, *hi = nullptr;
};

static std::vector<Thr *> g_thr;
static __thread Thr *t_me = nullptr;
static Thr *g_cur = nullptr;
static bool g_on = false;
static std::map<void *, Thr *> g_owner;         // mutexes held
static std::map<void *, int> g_count;           // semaphores
static unsigned long long g_rng = 88172645463325252ull;
static unsigned g_p = 16;                       // switch with chance 1/p
static long g_points = 0, g_lastEvent = 0, g_switches = 0;
static long g_now = 0;
static __thread int t_hush = 0;                 // no switches while set
static const long SPIN = 60000;

static unsigned rnd(unsigned n)
{
  g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17;
  return (unsigned) ((g_rng >> 11) % n);
}

//
// The record
//

static int g_fd = -1;
static std::string g_tr;
static bool g_live = false;
static void finish(const char *how);

static void ev(std::string const &s)
{
  if (!g_tr.empty()) g_tr += ",";
  g_tr += "{" + s + "}";
  g_lastEvent = g_points;
}

static std::string q(std::string const &s) { return "\"" + s + "\""; }

static void evt(const char *e, int t, std::string const &rest = "")
{
  ev("\"e\":" + q(e) + ",\"t\":" + std::to_string(t) + rest);
}

static void finish(const char *how)
{
  if (how)
    ev("\"e\":" + q(how));
  std::string s = "[" + g_tr + "]";
  size_t off = 0;
  while (off < s.size()) {
    ssize_t n = ::write(g_fd, s.data() + off, s.size() - off);
    if (n <= 0) break;
    off += n;
  }
  _exit(0);
}

static void wakeUp(Thr *t)
{
  t->baton.store(1, std::memory_order_release);
  syscall(SYS_futex, &t->baton, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void waitBaton(Thr *t)
{
  while (t->baton.load(std::memory_order_acquire) == 0)
    syscall(SYS_futex, &t->baton, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  t->baton.store(0, std::memory_order_relaxed);
}

static bool ready(Thr *t)
{
  switch (t->blk) {
  case B_NONE: return true;
  case B_MUTEX: return !g_owner.count(t->obj);
  case B_SEM: return g_count[t->obj] > 0 || t->pending;
  case B_COND: return (t->signaled || t->timedout) && !g_owner.count(t->mtx);
  case B_JOIN: return ((Thr *) t->obj)->blk == B_DONE;
  default: return false;
  }
}

static void quiet()
{
  std::string b;
  for (Thr *t : g_thr)
    if (t->client && t->blk != B_DONE)
      b += (b.empty() ? "" : ",") + std::string("[") + std::to_string(t->id) + "," + q(t->op) + "," +
        q(t->blk == B_MUTEX ? "mutex" : t->blk == B_SEM || t->blk == B_COND ? "wait" : "other") + "]";
  bool stuck = false;
  for (Thr *t : g_thr)
    if (t->blk == B_MUTEX)
      stuck = true;
  ev(std::string("\"e\":\"quiet\",\"b\":[") + b + "],\"stuck\":" + (stuck ? "1" : "0"));
}

// choose who runs next; me keeps going only if chosen again
static Thr *choose(Thr *me, bool must)
{
  for (;;) {
    Thr *cand[64]; int n = 0;
    for (Thr *t : g_thr)
      if (t != me && ready(t)) cand[n++] = t;
    bool mine = me && ready(me);
    if (mine && (!must || !n)) return me;
    if (n) return cand[rnd(n)];
    // nobody can run: time passes
    Thr *s = nullptr;
    for (Thr *t : g_thr)
      if (t->wake && t->blk != B_DONE && t->blk != B_NONE && (!s || t->wake < s->wake)) s = t;
    if (s) {
      g_now = std::max(g_now, s->wake);
      s->wake = 0;
      if (s->blk == B_SLEEP) s->blk = B_NONE;
      else s->timedout = true;
      continue;
    }
    for (Thr *t : g_thr)
      if (t->blk == B_QUIET) { quiet(); t->blk = B_NONE; return t; }
    ev("\"e\":\"dead\"");
    finish(nullptr);
  }
}

static void give(Thr *me, Thr *to)
{
  if (to == me) return;
  g_switches++;
  g_cur = to;
  wakeUp(to);
  waitBaton(me);
}

static void handleSignals(Thr *me);

static void point(unsigned weight)
{
  Thr *me = t_me;
  if (!g_on || !me || t_hush) return;
  g_points++;
  if (g_points - g_lastEvent > SPIN)
    finish("spin");
  if (rnd(g_p * 4) < weight * 4)
    give(me, choose(me, true));
  if (me->pending) handleSignals(me);
}

// me cannot go on until ready()
static void block(Thr *me)
{
  while (me->blk != B_NONE) {
    Thr *n = choose(me, false);
    if (n != me) give(me, n);
    if (ready(me)) break;
  }
}

//
// Interposed calls
//

#define REAL(name) (decltype(&name)) dlsym(RTLD_NEXT, #name)

extern "C" {

int pthread_mutex_lock(pthread_mutex_t *m)
{
  static auto real = REAL(pthread_mutex_lock);
  Thr *me = t_me;
  if (!g_on || !me || t_hush) return real ? real(m) : 0;
  point(2);
  if (g_owner.count(m)) {
    me->blk = B_MUTEX; me->obj = m;
    block(me);
    me->blk = B_NONE;
  }
  g_owner[m] = me;
  return 0;
}

int pthread_mutex_trylock(pthread_mutex_t *m)
{
  static auto real = REAL(pthread_mutex_trylock);
  Thr *me = t_me;
  if (!g_on || !me || t_hush) return real(m);
  point(2);
  if (g_owner.count(m)) return EBUSY;
  g_owner[m] = me;
  return 0;
}

int pthread_mutex_unlock(pthread_mutex_t *m)
{
  static auto real = REAL(pthread_mutex_unlock);
  Thr *me = t_me;
  if (!g_on || !me || t_hush || !g_owner.count(m)) return real ? real(m) : 0;
  g_owner.erase(m);
  point(2);
  return 0;
}

int sem_init(sem_t *s, int, unsigned v) { g_count[s] = v; return 0; }
int sem_destroy(sem_t *s) { g_count.erase(s); return 0; }

int sem_post(sem_t *s)
{
  point(2);
  g_count[s]++;
  point(2);
  return 0;
}

static void parked(Thr *me) { if (me->exec) evt("park", me->id); }
static void woken(Thr *me) { if (me->exec) evt("wake", me->id); }

int sem_wait(sem_t *s)
{
  Thr *me = t_me;
  point(2);
  parked(me);
  if (g_count[s] <= 0) {
    me->blk = B_SEM; me->obj = s;
    block(me);
    me->blk = B_NONE;
    if (g_count[s] <= 0) { handleSignals(me); errno = EINTR; return -1; }
  }
  g_count[s]--;
  woken(me);
  point(2);
  return 0;
}

int sem_trywait(sem_t *s)
{
  point(2);
  if (g_count[s] <= 0) { errno = EAGAIN; return -1; }
  g_count[s]--;
  return 0;
}

int sem_getvalue(sem_t *s, int *v) { *v = g_count[s]; return 0; }

static int condWait(pthread_cond_t *c, pthread_mutex_t *m, long wake)
{
  Thr *me = t_me;
  parked(me);
  g_owner.erase(m);
  me->blk = B_COND; me->obj = c; me->mtx = m; me->signaled = false; me->timedout = false;
  me->wake = wake;
  point(2);
  block(me);
  me->blk = B_NONE; me->wake = 0;
  g_owner[m] = me;
  woken(me);
  return me->timedout && !me->signaled ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
  static auto real = REAL(pthread_cond_wait);
  if (!g_on || !t_me) return real(c, m);
  return condWait(c, m, 0);
}

int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *)
{ return condWait(c, m, g_now + 1); }

int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *)
{ return condWait(c, m, g_now + 1); }

static int condWake(pthread_cond_t *c, bool all)
{
  point(2);
  std::vector<Thr *> w;
  for (Thr *t : g_thr)
    if (t->blk == B_COND && t->obj == c && !t->signaled) w.push_back(t);
  if (w.empty()) return 0;
  if (all) for (Thr *t : w) t->signaled = true;
  else w[rnd(w.size())]->signaled = true;
  point(2);
  return 0;
}

int pthread_cond_signal(pthread_cond_t *c)
{
  static auto real = REAL(pthread_cond_signal);
  if (!g_on || !t_me) return real(c);
  return condWake(c, false);
}

int pthread_cond_broadcast(pthread_cond_t *c)
{
  static auto real = REAL(pthread_cond_broadcast);
  if (!g_on || !t_me) return real(c);
  return condWake(c, true);
}

static void *trampoline(void *a)
{
  Thr *me = (Thr *) a;
  t_me = me;
  waitBaton(me);
  me->res = me->fn(me->arg);
  if (me->exec) evt("exit", me->id);
  me->blk = B_DONE;
  Thr *n = choose(nullptr, false);
  g_cur = n;
  wakeUp(n);
  return me->res;
}

static bool g_makingClient = false;

int pthread_create(pthread_t *p, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
  static auto real = REAL(pthread_create);
  if (!g_on || !t_me) return real(p, at, fn, arg);
  Thr *t = new Thr;
  t->id = g_thr.size();
  t->fn = fn; t->arg = arg;
  t->client = g_makingClient;
  t->exec = !g_makingClient;
  int r = real(&t->pt, at, trampoline, t);
  if (r) finish("nothread");
  *p = t->pt;
  g_thr.push_back(t);
  point(2);
  return 0;
}

int pthread_join(pthread_t p, void **res)
{
  static auto real = REAL(pthread_join);
  Thr *me = t_me;
  if (!g_on || !me) return real(p, res);
  for (Thr *t : g_thr)
    if (t->pt == p && t != g_thr[0]) {
      me->blk = B_JOIN; me->obj = t;
      block(me);
      me->blk = B_NONE;
      return real(p, res);
    }
  return ESRCH;
}

int pthread_detach(pthread_t) { return 0; }

static int snooze(long s)
{
  Thr *me = t_me;
  me->blk = B_SLEEP;
  me->wake = g_now + (s > 0 ? s : 1);
  block(me);
  me->blk = B_NONE; me->wake = 0;
  return 0;
}

unsigned sleep(unsigned s) { return g_on ? snooze(s * 1000L) : 0; }
int usleep(useconds_t u) { return g_on ? snooze(u / 1000) : 0; }
int nanosleep(const struct timespec *ts, struct timespec *)
{ return g_on ? snooze(ts->tv_sec * 1000L + ts->tv_nsec / 1000000) : 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *ts, struct timespec *)
{ return g_on ? snooze(ts->tv_sec * 1000L + ts->tv_nsec / 1000000) : 0; }
int sched_yield() { point(8); return 0; }

int kill(pid_t pid, int sig)
{
  if (!g_on) return ::syscall(SYS_kill, pid, sig);
  evt("kill", t_me->id);
  finish(nullptr);
  return 0;
}

int sigaction(int sig, const struct sigaction *sa, struct sigaction *old)
{
  static auto real = REAL(sigaction);
  if (g_on && sig == SIGUSR2) return 0;
  return real(sig, sa, old);
}

//
// What the compiler calls at memory accesses
//

static inline void touched(void *p, unsigned w)
{
  Thr *me = t_me;
  if (!g_on || !me || t_hush) return;
  char *sp = (char *) __builtin_frame_address(0);
  if ((char *) p >= sp - 4096 && (char *) p < sp + 1024 * 1024) return;    // own stack
  point(w);
}

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define RW(n) \
  void __tsan_read##n(void *p) { touched(p, 1); } \
  void __tsan_write##n(void *p) { touched(p, 1); } \
  void __tsan_unaligned_read##n(void *p) { touched(p, 1); } \
  void __tsan_unaligned_write##n(void *p) { touched(p, 1); } \
  void __tsan_volatile_read##n(void *p) { touched(p, 1); } \
  void __tsan_volatile_write##n(void *p) { touched(p, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long) { touched(p, 1); }
void __tsan_write_range(void *p, unsigned long) { touched(p, 1); }

#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T *a, int) { touched((void *) a, 2); return *a; } \
  void __tsan_atomic##n##_store(volatile T *a, T v, int) { touched((void *) a, 2); *a = v; } \
  T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { touched((void *) a, 2); T o = *a; *a = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { touched((void *) a, 2); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { touched((void *) a, 2); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { touched((void *) a, 2); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { touched((void *) a, 2); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { touched((void *) a, 2); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) \
  { touched((void *) a, 2); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) \
  { touched((void *) a, 2); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) \
  { touched((void *) a, 2); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

} // extern "C"

static void handleSignals(Thr *me) { me->pending = false; }

//
// The application and its world
//

static ExecApplication *g_app = nullptr;
static std::map<std::string, std::unique_ptr<pugi::xml_document>> g_plans;

struct World : LookupHandler
{
  // says nothing: values come from the posts only
  void lookupNow(const State &, LookupReceiver *) override {}
};

struct Clock : LookupHandler
{
  void lookupNow(const State &, LookupReceiver *r) override
  {
    evt("sb", t_me->id);
    point(4);
    r->update((Real) 0.0);
  }
};

struct Watch : ExecListenerBase
{
  ExecListenerBase *hub;
  void notifyOfTransitions(std::vector<NodeTransition> const &tr) override
  {
    for (NodeTransition const &x : tr)
      if (!x.node->getParent()) {
        if (x.newState == EXECUTING_STATE)
          evt("pstart", t_me->id, ",\"p\":" + q(x.node->getNodeId()));
        else if (x.newState == FINISHED_STATE)
          evt("pfin", t_me->id, ",\"p\":" + q(x.node->getNodeId()));
      }
    hub->notifyOfTransitions(tr);
  }
  void notifyOfAssignment(Expression const *d, std::string const &n, Value const &v) override
  {
    Integer i = -1;
    if (v.getValue(i) && n.size() > 1 && (n[0] == 'S' || n[0] == 'D'))
      evt(n[0] == 'S' ? "seen" : "done", t_me->id, ",\"c\":" + q(n.substr(1)) + ",\"v\":" + std::to_string(i));
    hub->notifyOfAssignment(d, n, v);
    point(4);
  }
  void stepComplete(unsigned int n) override
  {
    hub->stepComplete(n);
    point(4);
    evt("se", t_me->id);
  }
};

static void doOp(std::string const &op)
{
  Thr *me = t_me;
  std::istringstream is(op);
  std::string o, a; int v = 0;
  is >> o >> a >> v;
  std::string rest = a.empty() ? "" : ",\"c\":" + q(a);
  if (o == "post") rest += ",\"v\":" + std::to_string(v);
  me->op = o;
  evt("call", me->id, ",\"o\":" + q(o) + rest);
  point(4);
  int r = 1;
  InterfaceManager *m = g_app->manager();
  if (o == "post") m->handleValueChange(State(a), Value((Integer) v));
  else if (o == "notify") m->notifyOfExternalEvent();
  else if (o == "flush") m->notifyAndWaitForCompletion();
  else if (o == "suspend") r = g_app->suspend();
  else if (o == "resume") r = g_app->resume();
  else if (o == "stop") g_app->stop();
  else if (o == "term") g_app->terminate();
  else if (o == "plan") r = g_app->addPlan(g_plans[a].get());
  else if (o == "waitplan") g_app->waitForPlanFinished();
  else if (o == "waitstop") g_app->waitForShutdown();
  else if (o == "allfin") r = g_app->allPlansFinished();
  else if (o == "issusp") r = g_app->isSuspended();
  else finish("badop");
  point(4);
  me->op = "";
  evt("ret", me->id, ",\"o\":" + q(o) + rest + ",\"r\":" + std::to_string(r));
}

static void *clientMain(void *a)
{
  std::istringstream is(*(std::string *) a);
  std::string op;
  while (std::getline(is, op, ';'))
    if (!op.empty())
      doOp(op);
  return nullptr;
}

struct Scn
{
  std::string id;
  bool bg = true;
  std::vector<std::pair<std::string, std::string>> plans;
  std::vector<std::string> steps;      // "main op" / "thr prog" / "phase"
};

static void runScenario(Scn const &s, unsigned long long seed)
{
  alarm(20);
  g_rng = seed * 6364136223846793005ull + 1442695040888963407ull;
  for (int i = 0; i < 5; ++i) rnd(7);
  static const unsigned ps[] = {3, 6, 16, 40, 100, 250};
  g_p = ps[rnd(6)];
  Error::doThrowExceptions();
  PlanError::doThrowExceptions();
  for (auto const &p : s.plans) {
    auto d = std::unique_ptr<pugi::xml_document>(new pugi::xml_document);
    if (!d->load_string(p.second.c_str())) finish("badplan");
    g_plans[p.first] = std::move(d);
  }
  Thr *me = new Thr;
  g_thr.push_back(me);
  t_me = me;
  g_cur = me;
  me->pt = pthread_self();
  g_on = true;
  t_hush = 1;
  g_app = makeExecApplication();
  g_app->setRunExecInBkgndOnly(s.bg);
  pugi::xml_node none;
  if (!g_app->initialize(none)) finish("noinit");
  auto w = std::make_shared<World>();
  g_app->configuration()->setDefaultLookupHandler(w);
  g_app->configuration()->registerLookupHandler(std::make_shared<Clock>(), "time");
  Watch *watch = new Watch;
  watch->hub = g_app->listenerHub();
  g_app->exec()->setExecListener(watch);
  if (!g_app->startInterfaces()) finish("nostart");
  t_hush = 0;
  if (!g_app->run()) finish("norun");
  for (std::string const &st : s.steps) {
    if (st.compare(0, 5, "main ") == 0) { me->client = true; doOp(st.substr(5)); me->client = false; }
    else if (st.compare(0, 4, "thr ") == 0) {
      pthread_t t;
      g_makingClient = true;
      t_hush = 0;
      pthread_create(&t, nullptr, clientMain, new std::string(st.substr(4)));
      g_makingClient = false;
    }
    else if (st == "phase") {
      me->blk = B_QUIET;
      block(me);
      me->blk = B_NONE;
    }
  }
  finish("end");
}

int main(int argc, char **argv)
{
  if (argc < 5) return 2;
  int runs = atoi(argv[3]);
  unsigned long long seed = strtoull(argv[4], nullptr, 10);
  std::ifstream in(argv[1]);
  FILE *out = fopen(argv[2], "w");
  std::vector<Scn> scns;
  std::string line;
  while (std::getline(in, line)) {
    if (line.compare(0, 4, "scn ") == 0) { scns.push_back(Scn()); scns.back().id = line.substr(4); }
    else if (line.compare(0, 5, "plan ") == 0) {
      size_t sp = line.find(' ', 5);
      scns.back().plans.push_back({line.substr(5, sp - 5), line.substr(sp + 1)});
    }
    else if (line == "opportunistic") scns.back().bg = false;
    else if (!line.empty()) scns.back().steps.push_back(line);
  }
  for (Scn const &s : scns) {
    std::map<std::string, unsigned long long> seen;
    for (int r = 0; r < runs; ++r) {
      int p[2];
      if (pipe(p)) return 2;
      unsigned long long sd = argc > 5 ? seed : seed * 1000003ull + r;   // 'exact': this very schedule
      pid_t pid = fork();
      if (pid == 0) {
        close(p[0]);
        g_fd = p[1];
        if (!getenv("DRIVER_VERBOSE")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
        runScenario(s, sd);
      }
      close(p[1]);
      std::string tr; char buf[65536]; ssize_t n;
      while ((n = read(p[0], buf, sizeof buf)) > 0) tr.append(buf, n);
      close(p[0]);
      int st = 0;
      waitpid(pid, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || tr.empty())
        tr = std::string("[{\"e\":\"") + (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "crash") +
          "\",\"s\":" + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) + "}]";
      seen.insert({tr, sd});
    }
    for (auto const &x : seen)
      fprintf(out, "{\"scn\":\"%s\",\"seed\":%llu,\"tr\":%s}\n", s.id.c_str(), x.second, x.first.c_str());
  }
  fclose(out);
  return 0;
}
