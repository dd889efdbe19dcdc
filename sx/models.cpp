// Lock, queue and thread models (shared by the symbolic and the native build).
#include <exception>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <ucontext.h>
#include "sx.h"
namespace sx {
struct EigenAssert { const char* expr; const char* file; int line; };
[[noreturn]] void eigen_assert_failed(const char* e, const char* f, int l) { throw EigenAssert{e, f, l}; }
static std::map<const void*, const MutexState*> g_guard;
static bool g_conc = false;
static std::function<void()> g_env;
static bool g_inEnv = false;
static std::set<std::pair<int, int>> g_order;
static int g_uid = 0;
static long g_lockBudget = -1;
struct LockSet { std::set<int> tids; std::set<const MutexState*> common; bool first = true, reported = false; };
static std::map<const void*, LockSet> g_lockset;   // queues without a declared guard: the locks common to all accesses
static int g_tid = 0;
// ---- cooperative threads: every registered thread is a coroutine that can only be switched at lock operations -------
struct Th { ucontext_t ctx; std::unique_ptr<char[]> stack; std::function<void()> fn; bool done = false, abandoned = false, idled = false; std::vector<const MutexState*> held; const MutexState* waiting = nullptr; long idle = 0, since = 1000; };
static std::vector<std::unique_ptr<Th>> T;   // T[0] is the main thread
static bool g_coop = false; static int g_preempt = 0, g_forks = 0; static std::exception_ptr g_pending; static const long kIdle = 8, kJoin = 600;
static Th& cur() { if (T.empty()) T.emplace_back(new Th); return *T[g_coop ? g_tid : 0]; }
#define g_held (cur().held)
static void switchTo(int i) { int me = g_tid; g_tid = i; swapcontext(&T[me]->ctx, &T[i]->ctx); }
static void back() { switchTo(0); }
static void rethrow() { if (g_pending && g_tid == 0) { auto e = g_pending; g_pending = nullptr; std::rethrow_exception(e); } }
static void trampoline() { int me = g_tid; try { T[me]->fn(); } catch (...) { g_pending = std::current_exception(); } T[me]->done = true; T[me]->held.clear(); for (;;) back(); }
static bool runnable(int i) { return i > 0 && i < (int)T.size() && !T[i]->done && !T[i]->abandoned; }
int coop_spawn(std::function<void()> f) {
  if (!g_coop) return 0;
  cur(); T.emplace_back(new Th); Th& t = *T.back(); t.fn = f; size_t sz = 4 << 20; t.stack.reset(new char[sz]); getcontext(&t.ctx); t.ctx.uc_stack.ss_sp = t.stack.get(); t.ctx.uc_stack.ss_size = sz; t.ctx.uc_link = nullptr; makecontext(&t.ctx, trampoline, 0); return (int)T.size() - 1;
}
// lets every other thread run until it is idle, blocked or done (main thread only)
void coop_run() {
  if (!g_coop || g_tid) return;
  for (int round = 0; round < 50; round++) { bool all = true; for (size_t i = 1; i < T.size(); i++) if (runnable(i)) { T[i]->idle = 0; T[i]->idled = false; switchTo(i); rethrow(); if (runnable(i) && !T[i]->idled) all = false; } if (all) return; }
}
void coop_join(int i) {
  if (!g_coop || !runnable(i) || std::uncaught_exceptions() || g_pending) { if (i > 0 && i < (int)T.size()) T[i]->abandoned = true; return; }
  for (long n = 0; runnable(i); n++) { if (n > kJoin) { fail("thread misuse: join does not return"); T[i]->abandoned = true; return; } T[i]->idle = 0; switchTo(i); if (g_pending) { T[i]->abandoned = true; return; } if (runnable(i) && T[i]->waiting) for (size_t j = 1; j < T.size(); j++) if ((int)j != i && runnable(j)) { T[j]->idle = 0; switchTo(j); if (g_pending) return; } }
}
void coop_check() { rethrow(); }
bool coop_alive(int i) { return runnable(i); }
Coop::Coop(int preemptions) { cur(); g_coop = true; g_preempt = preemptions; g_forks = 0; g_pending = nullptr; }
Coop::~Coop() { g_preempt = 0; }
static void mutated() { if (g_coop) { cur().since = 0; cur().idle = 0; } }
// a point where another thread may take over
static void schedule() {
  if (!g_coop) return;
  if (g_tid) {
    Th& t = cur(); t.since++;
    if (++t.idle > kIdle) { t.idle = 0; t.idled = true; back(); return; }
    if (g_preempt > 0 && t.since <= 3) { if (choose("sched" + std::to_string(g_forks++), 2)) { g_preempt--; back(); } }
    return;
  }
  rethrow(); if (std::uncaught_exceptions()) return;
  if (g_preempt > 0) for (size_t i = 1; i < T.size(); i++) if (runnable(i) && g_preempt > 0 && choose("sched" + std::to_string(g_forks++), 2)) { g_preempt--; T[i]->idle = 0; switchTo(i); rethrow(); }
}
static bool blocked(const MutexState* m) {   // the mutex is held by another cooperative thread
  if (!g_coop || !m->held || m->held == 1 + g_tid) return false;
  Th& t = cur(); int o = m->held - 1; t.waiting = m; int w = o;
  for (int k = 0; k < 8 && T[w]->waiting && T[w]->waiting->held; k++) { w = T[w]->waiting->held - 1; if (w == g_tid) { fail("deadlock: threads wait for each other"); throw Stop{"deadlock"}; } }
  if (g_tid == 0) { if (!runnable(o)) { fail("deadlock: a mutex is held by a finished thread"); throw Stop{"deadlock"}; } int r = runnable(w) ? w : o; T[r]->idle = 0; switchTo(r); rethrow(); } else back();
  return true;
}
MutexState::MutexState() : uid(++g_uid) {}
MutexState::~MutexState() {}
static void env() { if (g_env && !g_inEnv) { g_inEnv = true; try { g_env(); } catch (...) { g_inEnv = false; throw; } g_inEnv = false; } }
void MutexState::acquire() {
  if (g_lockBudget >= 0 && g_lockBudget-- == 0) throw Stop{"lock budget"};
  env(); schedule();
  for (long n = 0; blocked(this); n++) if (n > kJoin) { fail("deadlock: a mutex is never released"); throw Stop{"deadlock"}; }
  if (g_coop) cur().waiting = nullptr;
  if (held) { fail("deadlock: a mutex is locked twice by one thread"); throw Stop{"deadlock"}; }
  for (auto* m : g_held) { g_order.insert({m->uid, uid}); if (g_order.count({uid, m->uid})) fail("deadlock: two mutexes are locked in conflicting order"); }
  held = g_coop ? 1 + g_tid : 1; g_held.push_back(this);
}
bool MutexState::try_acquire() { if (held) return false; acquire(); return true; }
void MutexState::release() {
  if (!held) { fail("a mutex is unlocked that is not locked"); return; }
  if (g_coop && held != 1 + g_tid) fail("a mutex is unlocked by a thread that does not hold it");
  held = 0;
  for (size_t i = 0; i < g_held.size(); i++) if (g_held[i] == this) { g_held.erase(g_held.begin() + i); break; }
  env(); schedule();
}
// files: shared between threads once more than one is alive
void file_access(const void* q, const char* what) {
  if (!g_coop) return; bool other = g_tid != 0; for (size_t i = 1; i < T.size(); i++) if (runnable(i)) other = true; if (!other) { g_lockset.erase(q); return; }
  LockSet& l = g_lockset[q]; l.tids.insert(g_tid); std::set<const MutexState*> now(g_held.begin(), g_held.end());
  if (l.first) { l.common = now; l.first = false; } else for (auto i = l.common.begin(); i != l.common.end();) if (!now.count(*i)) i = l.common.erase(i); else ++i;
  if (l.tids.size() > 1 && l.common.empty() && !l.reported) { l.reported = true; fail(std::string("data race: shared file accessed without a common lock")); }
}
void queue_access(const void* q, const char* what) {
  if (what[0] == 'p') mutated();
  if (!g_conc || g_inEnv) return;
  auto it = g_guard.find(q);
  if (it == g_guard.end()) {
    LockSet& l = g_lockset[q]; l.tids.insert(g_tid);
    std::set<const MutexState*> now(g_held.begin(), g_held.end());
    if (l.first) { l.common = now; l.first = false; }
    else for (auto i = l.common.begin(); i != l.common.end();) if (!now.count(*i)) i = l.common.erase(i); else ++i;
    if (l.tids.size() > 1 && l.common.empty() && !l.reported) { l.reported = true; fail("data race: shared queue accessed without a common lock"); }
    return;
  }
  if (g_coop ? it->second->held != 1 + g_tid : !it->second->held) fail(std::string("data race: shared queue accessed without its lock"));
}
void queue_born(const void* q) { g_lockset.erase(q); g_guard.erase(q); }
ThreadScope::ThreadScope(int t) : saved(g_tid) { g_tid = t; }
ThreadScope::~ThreadScope() { g_tid = saved; }
void queue_underflow(const char* what) { fail(std::string("queue underflow: ") + what + " on an empty queue"); throw Stop{"queue underflow"}; }
void guard(const void* q, const MutexState* m) { g_guard[q] = m; }
Concurrent::Concurrent() { g_conc = true; }
Concurrent::~Concurrent() { g_conc = false; }
Quiet::Quiet() : saved(g_conc) { g_conc = false; }
Quiet::~Quiet() { g_conc = saved; }
int locks_held() { return (int)g_held.size(); }
void set_env(std::function<void()> f) { g_env = f; }
void thread_event(const char* what) { fail(std::string("thread misuse: ") + what); }
void set_lock_budget(long n) { g_lockBudget = n; }
void models_path_start() { T.clear(); g_coop = false; g_preempt = 0; g_pending = nullptr;  g_guard.clear(); g_conc = false; g_env = nullptr; g_inEnv = false; g_order.clear(); g_lockBudget = -1; g_lockset.clear(); g_tid = 0; }
void models_path_end() { g_env = nullptr; g_lockBudget = -1; }
}  // namespace sx
