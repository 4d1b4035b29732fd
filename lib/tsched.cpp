#include "tsched.hpp"
#include <atomic>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <malloc.h>
#include <netdb.h>
#include <sys/uio.h>
#include <time.h>
#include <map>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_map>

extern "C"
{
    void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
    void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
}

extern "C" char __executable_start, __data_start, _end;
extern "C" int __real_nanosleep(const timespec *, timespec *);
static void a_moment() { timespec t{0, 1000000}; __real_nanosleep(&t, nullptr); }
namespace ts
{
        namespace
    {
        constexpr int MAXT = 3;
        struct Out { volatile int finished; int points, after; unsigned long long accesses; char error[4000]; char res[MAXT][16384]; char log[60000]; };
        Out *out;
        struct Thread
        {
            int id; Op op; pthread_t th; sem_t sem;
            int guards = 0; bool done = false, blocked = false, timed = false, expired = false;
            uint32_t vc[MAXT] = {};
            uintptr_t lo = 0, hi = 0;  // stack
            std::string result;
        };
        Thread T[MAXT];
        int nt = 0;
        sem_t main_sem;
        bool active = false, fine_ = false, logging = false, stopping = false;
        int counter = 0, after_last = 0;
        size_t next_pre = 0;
        std::vector<int> pre;
        thread_local int self = -1;
        thread_local int inside = 0;   // in the runtime
        struct Guard { Guard() { ++inside; } ~Guard() { --inside; } };
        inline bool on() { return active && self >= 0 && !inside; }

        void error(const std::string &s)
        {
            if(!out->error[0]) snprintf(out->error, sizeof out->error, "%s", s.c_str());
        }
        void log(const std::string &s)
        {
            if(!logging) return;
            size_t n = strlen(out->log);
            if(n + s.size() + 40 > sizeof out->log) return;
            snprintf(out->log + n, sizeof out->log - n, "[%c] %s\n", self < 0 ? '-' : 'A' + self, s.c_str());
        }
        [[noreturn]] void stop()       // give up on this execution
        {
            out->points = counter; out->after = counter - after_last;
            out->finished = 1;
            _exit(0);
        }
        void to(int t)
        {
            int me = self;
            sem_post(&T[t].sem);
            while(sem_wait(&T[me].sem)) {}
        }
        int other_runnable()           // first runnable thread after this one
        {
            for(int i = 1; i < nt; ++i) { int t = (self + i) % nt; if(!T[t].done && !T[t].blocked) return t; }
            return -1;
        }
        void point(const char *what)
        {
            if(logging && what[0] != 'a') log(what);
            int cand[MAXT], n = 0;
            for(int i = 1; i < nt; ++i) { int t = (self + i) % nt; if(!T[t].done && !T[t].blocked) cand[n++] = t; }
            if(!n) return;
            for(int i = 0; i < n; ++i, ++counter)
                if(next_pre < pre.size() && pre[next_pre] == counter)
                {
                    ++next_pre;
                    counter += n - i;
                    after_last = counter;
                    log(std::string("preempted at ") + what);
                    to(cand[i]);
                    return;
                }
        }
        int stalls = 0;
        void unblock() { stalls = 0; for(int i = 0; i < nt; ++i) T[i].blocked = false; }
        // this thread cannot go on until another one has done something; false: nobody will, but it need not wait any longer
        bool block(const char *why, bool timed = false)
        {
            T[self].blocked = true; T[self].timed = timed;
            int t = other_runnable();
            // what is under way in the kernel may take a moment
            if(t < 0 && stalls++ < (timed ? 2 : 1500)) { a_moment(); for(int i = 0; i < nt; ++i) T[i].blocked = false; T[self].timed = false; t = other_runnable(); if(t >= 0) to(t); return true; }
            if(t < 0 && timed) { T[self].blocked = T[self].timed = false; return false; }
            for(int i = 0; t < 0 && i < nt; ++i) if(i != self && !T[i].done && T[i].timed) { t = i; T[i].expired = true; }
            if(t < 0) { error(std::string("deadlock: every thread waits (the last one in ") + why + ")"); stop(); }
            log(std::string("waits in ") + why);
            to(t);
            T[self].blocked = T[self].timed = false;
            bool e = T[self].expired; T[self].expired = false;
            return !e;
        }

        // --- happens before ---
        struct VC { uint32_t c[MAXT] = {}; };
        std::unordered_map<uintptr_t, VC> *sync_;
        void acquire(const void *a) { auto i = sync_->find((uintptr_t) a); if(i == sync_->end()) return; for(int k = 0; k < MAXT; ++k) T[self].vc[k] = std::max(T[self].vc[k], i->second.c[k]); }
        void release(const void *a) { VC &v = (*sync_)[(uintptr_t) a]; for(int k = 0; k < MAXT; ++k) v.c[k] = std::max(v.c[k], T[self].vc[k]); ++T[self].vc[self]; }

        // --- shadow memory: per byte, the clocks of the last write and read of each thread ---
        struct Cell { uint32_t w[MAXT], r[MAXT]; uint32_t pc[MAXT]; };
        constexpr size_t PAGE = 512;
        struct Slot { uintptr_t page; Cell *cells; };
        Slot *table_; size_t tmask, tcount;
        Cell *arena; size_t arena_left = 0;
        uintptr_t base_pc;
        Cell *page_of(uintptr_t p, bool make)
        {
            size_t h = (p * 0x9e3779b97f4a7c15ull) >> 20 & tmask;
            while(table_[h].page) { if(table_[h].page == p) return table_[h].cells; h = (h + 1) & tmask; }
            if(!make) return nullptr;
            if(!arena_left) { arena_left = 512; arena = (Cell *) mmap(nullptr, arena_left * PAGE * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
            Cell *c = arena; arena += PAGE; --arena_left;
            if(++tcount * 2 > tmask) { error("the shadow memory is full"); stop(); }
            table_[h] = {p, c};
            return c;
        }
        void clear(uintptr_t a, size_t n)
        {
            while(n)
            {
                uintptr_t p = a / PAGE; size_t o = a % PAGE, k = std::min(n, PAGE - o);
                if(Cell *c = page_of(p, false)) __real_memset(c + o, 0, k * sizeof(Cell));
                a += k; n -= k;
            }
        }
        std::string where(uint32_t pc)
        {
            char cmd[300], line[600]; std::string r;
            char exe[200]; ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 1);
            if(l <= 0) return "?";
            exe[l] = 0;
            snprintf(cmd, sizeof cmd, "addr2line -Cfsipe %s 0x%x 2>/dev/null", exe, pc);
            FILE *f = popen(cmd, "r");
            if(!f) return "?";
            while(fgets(line, sizeof line, f) && r.size() < 700) { r += line; }
            pclose(f);
            for(auto &c : r) if(c == '\n') c = ' ';
            return r;
        }
        void race(const char *a, int t, uint32_t tpc, const char *b, uint32_t pc, uintptr_t addr)
        {
            if(out->error[0]) return;
            char h[40]; snprintf(h, sizeof h, "%lx", (unsigned long) addr);
            error(std::string("data race: ") + b + " by thread " + (char) ('A' + self) + " at " + where(pc) + " is not ordered with the " + a + " by thread " + (char) ('A' + t) + " at " + where(tpc));
            stop();
        }
        void access(uintptr_t a, size_t n, bool write, uintptr_t pc_)
        {
            Thread &me = T[self];
            if(a >= me.lo && a < me.hi) return;
            uint32_t pc = (uint32_t) (pc_ - base_pc - 1);
            ++out->accesses;
            if(fine_ && !me.guards && a >= (uintptr_t) &__data_start && a < (uintptr_t) &_end) point("an access to a global variable");
            const uint32_t now = me.vc[self];
            while(n)
            {
                uintptr_t p = a / PAGE; size_t o = a % PAGE, k = std::min(n, PAGE - o);
                Cell *c = page_of(p, true) + o;
                for(size_t i = 0; i < k; ++i, ++c)
                {
                    for(int t = 0; t < nt; ++t)
                    {
                        if(t == self) continue;
                        if(c->w[t] > me.vc[t]) race("write", t, c->pc[t], write ? "a write" : "a read", pc, a + i);
                        if(write && c->r[t] > me.vc[t]) race("read", t, c->pc[t], "a write", pc, a + i);
                    }
                    (write ? c->w : c->r)[self] = now;
                    c->pc[self] = pc;
                }
                a += k; n -= k;
            }
        }

        void *thread_main(void *p)
        {
            Thread &t = *(Thread *) p;
            while(sem_wait(&t.sem)) {}
            self = t.id;
            pthread_attr_t at; void *lo; size_t sz;
            pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
            t.lo = (uintptr_t) lo; t.hi = t.lo + sz;
            std::string r;
            try { r = t.op(); }
            catch(const std::exception &e) { r = std::string("exception: ") + e.what(); }
            catch(...) { r = "exception"; }
            ++inside;
            snprintf(out->res[t.id], sizeof out->res[0], "%s", r.c_str());
            t.done = true;
            unblock();
            int o = other_runnable();
            log("ends");
            for(int i = 0; o < 0 && i < nt; ++i) if(!T[i].done) o = i;
            if(o >= 0) sem_post(&T[o].sem); else sem_post(&main_sem);
            --inside;
            self = -1;
            return nullptr;
        }
        void child(const std::vector<Op> &ops, const Op &before, const Op &after)
        {
            alarm(60);
            if(before) { std::string r = before(); if(!r.empty()) { error(r); stop(); } }
            sync_ = new std::unordered_map<uintptr_t, VC>();
            tmask = (1 << 16) - 1; tcount = 0;
            table_ = (Slot *) mmap(nullptr, (tmask + 1) * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            nt = (int) ops.size();
            sem_init(&main_sem, 0, 0);
            for(int i = 0; i < nt; ++i) { T[i].id = i; T[i].op = ops[(size_t) i]; T[i].vc[i] = 1; sem_init(&T[i].sem, 0, 0); }
            for(int i = 0; i < nt; ++i) pthread_create(&T[i].th, nullptr, thread_main, &T[i]);
            active = true;
            sem_post(&T[0].sem);
            while(sem_wait(&main_sem)) {}
            active = false;
            for(int i = 0; i < nt; ++i) pthread_join(T[i].th, nullptr);
            if(after) { std::string r = after(); if(!r.empty()) error(r); }
            stop();
        }
    }
    void note(const std::string &s) { Guard g; log(s); }

    Run run(const std::vector<Op> &ops, const std::vector<int> &preempt, bool fine, bool lg, const Op &before, const Op &after)
    {
        if(!out) out = (Out *) mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        out->finished = 0; out->points = out->after = 0; out->accesses = 0; out->error[0] = 0; out->log[0] = 0;
        for(auto &r : out->res) r[0] = 0;
        base_pc = (uintptr_t) &__executable_start;
        pre = preempt; next_pre = 0; counter = 0; after_last = 0; fine_ = fine; logging = lg;
        fflush(nullptr);
        pid_t p = fork();
        if(p == 0) { child(ops, before, after); _exit(0); }
        int st = 0;
        while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        Run r;
        r.points = out->points; r.points_after = out->after; r.error = out->error; r.log = out->log; r.accesses = out->accesses;
        if(!out->finished && r.error.empty()) r.error = WIFSIGNALED(st) ? std::string("the process is killed by signal ") + std::to_string(WTERMSIG(st)) + (WTERMSIG(st) == SIGALRM ? " (it hangs)" : "") : "the process ends";
        for(size_t i = 0; i < ops.size(); ++i) r.results.push_back(out->res[i]);
        return r;
    }
}
using namespace ts;
#define PC ((uintptr_t) __builtin_return_address(0))

// --- what the instrumentation calls ---
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void *) {}
    void __tsan_func_exit() {}
#define ACC(n) \
    void __tsan_read##n(void *a) { if(on()) { Guard g; access((uintptr_t) a, n, false, PC); } } \
    void __tsan_write##n(void *a) { if(on()) { Guard g; access((uintptr_t) a, n, true, PC); } } \
    void __tsan_unaligned_read##n(void *a) { if(on()) { Guard g; access((uintptr_t) a, n, false, PC); } } \
    void __tsan_unaligned_write##n(void *a) { if(on()) { Guard g; access((uintptr_t) a, n, true, PC); } } \
    void __tsan_volatile_read##n(void *a) { if(on()) { Guard g; access((uintptr_t) a, n, false, PC); } } \
    void __tsan_volatile_write##n(void *a) { if(on()) { Guard g; access((uintptr_t) a, n, true, PC); } }
    ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
    void __tsan_read_range(void *a, size_t n) { if(on()) { Guard g; access((uintptr_t) a, n, false, PC); } }
    void __tsan_write_range(void *a, size_t n) { if(on()) { Guard g; access((uintptr_t) a, n, true, PC); } }
    void __tsan_vptr_read(void **p) { if(on()) { Guard g; access((uintptr_t) p, 8, false, PC); } }
    void __tsan_vptr_update(void **p, void *v) { if(on() && *p != v) { Guard g; access((uintptr_t) p, 8, true, PC); } }

#define ATOMIC_PRE(a) struct Scope { bool o; Scope(bool x) : o(x) { if(o) ++inside; } ~Scope() { if(o) --inside; } } sc(on()); if(sc.o) { point("an atomic operation"); }
#define ACQ(a, mo) if(sc.o && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) acquire((const void *) a)
#define REL(a, mo) if(sc.o && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) release((const void *) a)
#define ATOM(b, T) \
    T __tsan_atomic##b##_load(const volatile T *a, int mo) { ATOMIC_PRE(a); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); ACQ(a, mo); return v; } \
    void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { ATOMIC_PRE(a); REL(a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { ATOMIC_PRE(a); ACQ(a, mo); REL(a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { ATOMIC_PRE(a); ACQ(a, mo); REL(a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { ATOMIC_PRE(a); ACQ(a, mo); REL(a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { ATOMIC_PRE(a); ACQ(a, mo); REL(a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { ATOMIC_PRE(a); ACQ(a, mo); REL(a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int mo) { ATOMIC_PRE(a); ACQ(a, mo); REL(a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int) { ATOMIC_PRE(a); ACQ(a, mo); REL(a, mo); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int) { ATOMIC_PRE(a); ACQ(a, mo); REL(a, mo); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
    ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
    void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
    void __tsan_atomic_signal_fence(int) {}

    // memory functions
    void *__wrap_memcpy(void *d, const void *s, size_t n) { if(on() && n) { Guard g; access((uintptr_t) s, n, false, PC); access((uintptr_t) d, n, true, PC); } return __real_memcpy(d, s, n); }
    void *__wrap_memmove(void *d, const void *s, size_t n) { if(on() && n) { Guard g; access((uintptr_t) s, n, false, PC); access((uintptr_t) d, n, true, PC); } return __real_memmove(d, s, n); }
    void *__wrap_memset(void *d, int c, size_t n) { if(on() && n) { Guard g; access((uintptr_t) d, n, true, PC); } return __real_memset(d, c, n); }
    int __wrap_memcmp(const void *a, const void *b, size_t n) { if(on() && n) { Guard g; access((uintptr_t) a, n, false, PC); access((uintptr_t) b, n, false, PC); } return __real_memcmp(a, b, n); }
    void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if(p && active && !inside) { Guard g; clear((uintptr_t) p, malloc_usable_size(p)); } return p; }
    void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); if(p && active && !inside) { Guard g; clear((uintptr_t) p, malloc_usable_size(p)); } return p; }
    void *__wrap_realloc(void *o, size_t n) { void *p = __real_realloc(o, n); if(p && p != o && active && !inside) { Guard g; clear((uintptr_t) p, malloc_usable_size(p)); } return p; }
    void __wrap_free(void *p)
    {
        if(p && on()) { Guard g; size_t n = malloc_usable_size(p); access((uintptr_t) p, n, true, PC); clear((uintptr_t) p, n); }
        __real_free(p);
    }

    // function-local statics
    int __cxa_guard_acquire(unsigned char *g_)
    {
        if(!on()) { if(*(volatile unsigned char *) g_ & 1) return 0; g_[1] = 1; return 1; }
        Guard g; point("a static variable");
        for(;;)
        {
            if(*(volatile unsigned char *) g_ & 1) { acquire(g_); return 0; }
            if(!g_[1]) { g_[1] = (unsigned char) (self + 2); ++T[self].guards; return 1; }
            if(g_[1] == self + 2) { error("recursive initialisation of a static variable"); stop(); }
            block("the initialisation of a static variable");
        }
    }
    void __cxa_guard_release(unsigned char *g_) { if(on()) { Guard g; release(g_); unblock(); --T[self].guards; } g_[1] = 0; g_[0] = 1; }
    void __cxa_guard_abort(unsigned char *g_) { g_[1] = 0; if(on()) { Guard g; unblock(); --T[self].guards; } }

    // locks
    struct MState { int owner = -1, depth = 0, readers = 0; };
    static std::unordered_map<void *, MState> &ms() { static auto *m = new std::unordered_map<void *, MState>; return *m; }
    int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *);
    int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
    {
        if(!on()) return __real_pthread_mutex_lock(m);
        Guard g; point("a lock");
        bool rec = m->__data.__kind & PTHREAD_MUTEX_RECURSIVE_NP;
        for(;;)
        {
            MState &s = ms()[m];
            if(s.owner < 0 || (s.owner == self && rec)) { s.owner = self; ++s.depth; break; }
            block("a lock");
        }
        acquire(m); return 0;
    }
    int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
    {
        if(!on()) return __real_pthread_mutex_trylock(m);
        Guard g; point("a lock");
        MState &s = ms()[m];
        if(s.owner >= 0 && s.owner != self) return EBUSY;
        s.owner = self; ++s.depth; acquire(m); return 0;
    }
    int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
    {
        if(!on()) return __real_pthread_mutex_unlock(m);
        Guard g; MState &s = ms()[m]; release(m);
        if(--s.depth <= 0) { s.owner = -1; s.depth = 0; }
        unblock(); point("an unlock"); return 0;
    }
#define RW(kind) \
    int __real_pthread_rwlock_##kind(pthread_rwlock_t *);
    RW(rdlock) RW(wrlock) RW(unlock)
    int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { if(!on()) return __real_pthread_rwlock_rdlock(m); Guard g; point("a lock"); while(ms()[m].owner >= 0) block("a lock"); ++ms()[m].readers; acquire(m); return 0; }
    int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { if(!on()) return __real_pthread_rwlock_wrlock(m); Guard g; point("a lock"); while(ms()[m].owner >= 0 || ms()[m].readers) block("a lock"); ms()[m].owner = self; acquire(m); return 0; }
    int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { if(!on()) return __real_pthread_rwlock_unlock(m); Guard g; release(m); auto &s = ms()[m]; if(s.owner == self) s.owner = -1; else if(s.readers) --s.readers; unblock(); point("an unlock"); return 0; }
    int __real_pthread_once(pthread_once_t *, void (*)());
    int __wrap_pthread_once(pthread_once_t *o, void (*f)())
    {
        if(!on()) return __real_pthread_once(o, f);
        { Guard g; point("call_once"); while(ms()[o].owner >= 0) block("call_once"); if(ms()[o].depth || *o == 2) { acquire(o); return 0; } ms()[o].owner = self; }
        try { f(); } catch(...) { Guard g; ms()[o].owner = -1; unblock(); throw; }
        Guard g; ms()[o].owner = -1; ms()[o].depth = 1; *o = 2; release(o); unblock(); return 0;
    }

    // library functions with a hidden shared buffer count as a write to it
#define HIDDEN(ret, name, args, call) ret __real_##name args; ret __wrap_##name args { if(on()) { static char hidden[8]; Guard g; point(#name); access((uintptr_t) hidden, 1, true, PC); } return __real_##name call; }
    HIDDEN(char *, strtok, (char *a, const char *b), (a, b))
    HIDDEN(struct tm *, gmtime, (const time_t *t), (t))
    HIDDEN(struct tm *, localtime, (const time_t *t), (t))
    HIDDEN(char *, asctime, (const struct tm *t), (t))
    HIDDEN(char *, ctime, (const time_t *t), (t))
    HIDDEN(char *, inet_ntoa, (uint32_t a), (a))
    HIDDEN(struct hostent *, gethostbyname, (const char *a), (a))
    HIDDEN(char *, setlocale, (int c, const char *a), (c, a))
    HIDDEN(int, setenv, (const char *a, const char *b, int c), (a, b, c))
    HIDDEN(long, lrand48, (), ())

    void *__real___cxa_allocate_exception(size_t) throw();
    void *__wrap___cxa_allocate_exception(size_t n) throw() { void *p = __real___cxa_allocate_exception(n); if(on()) { Guard g; clear((uintptr_t) p, n); } return p; }

    // system calls: points, and a thread that would block waits for the others
    int __real_poll(struct pollfd *, nfds_t, int); 
#define SYS(name) struct Scope { bool o; Scope(bool x) : o(x) { if(o) ++inside; } ~Scope() { if(o) --inside; } } sc(on()); if(sc.o) { point(name); }
    struct Did { bool o; Did(bool x) : o(x) {} ~Did() { if(o) unblock(); } };
#define DID Did did(sc.o)
    static bool ready(int fd, short ev) { pollfd p{fd, ev, 0}; int e = errno; int r = __real_poll(&p, 1, 0); errno = e; return r != 0; }
    // false: the time a socket may wait has passed
    static bool wait_for(int fd, short ev, int fl, const char *what)
    {
        if(fl & MSG_DONTWAIT) return true;
        int f = fcntl(fd, F_GETFL);
        if(f < 0 || (f & O_NONBLOCK)) return true;
        timeval tv{}; socklen_t l = sizeof tv;
        bool timed = getsockopt(fd, SOL_SOCKET, ev == POLLIN ? SO_RCVTIMEO : SO_SNDTIMEO, &tv, &l) == 0 && (tv.tv_sec || tv.tv_usec);
        while(!ready(fd, ev)) if(!block(what, timed)) { errno = EAGAIN; return false; }
        return true;
    }
#define IN(call, name, fd, fl, buf, len, pc) SYS(name); if(sc.o && !wait_for(fd, POLLIN, fl, name)) return -1; DID; ssize_t r = call; if(sc.o && r > 0) access((uintptr_t) (buf), std::min((size_t) r, (size_t) (len)), true, pc); return r;
#define OUT(call, name, fd, fl, buf, len, pc) SYS(name); if(sc.o && !wait_for(fd, POLLOUT, fl, name)) return -1; DID; if(sc.o && (len)) access((uintptr_t) (buf), len, false, pc); return call;
    ssize_t __real_recv(int, void *, size_t, int); ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { IN(__real_recv(fd, b, n, fl), "recv", fd, fl, b, n, PC) }
    ssize_t __real_recvfrom(int, void *, size_t, int, sockaddr *, socklen_t *); ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, sockaddr *a, socklen_t *l) { IN(__real_recvfrom(fd, b, n, fl, a, l), "recvfrom", fd, fl, b, n, PC) }
    ssize_t __real_recvmsg(int, msghdr *, int); ssize_t __wrap_recvmsg(int fd, msghdr *m, int fl) { IN(__real_recvmsg(fd, m, fl), "recvmsg", fd, fl, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, PC) }
    ssize_t __real_read(int, void *, size_t); ssize_t __wrap_read(int fd, void *b, size_t n) { IN(__real_read(fd, b, n), "read", fd, 0, b, n, PC) }
    ssize_t __real_readv(int, const iovec *, int); ssize_t __wrap_readv(int fd, const iovec *v, int c) { IN(__real_readv(fd, v, c), "readv", fd, 0, v[0].iov_base, c ? v[0].iov_len : 0, PC) }
    ssize_t __real_send(int, const void *, size_t, int); ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) { OUT(__real_send(fd, b, n, fl), "send", fd, fl, b, n, PC) }
    ssize_t __real_sendto(int, const void *, size_t, int, const sockaddr *, socklen_t); ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl, const sockaddr *a, socklen_t l) { OUT(__real_sendto(fd, b, n, fl, a, l), "sendto", fd, fl, b, n, PC) }
    ssize_t __real_sendmsg(int, const msghdr *, int); ssize_t __wrap_sendmsg(int fd, const msghdr *m, int fl) { OUT(__real_sendmsg(fd, m, fl), "sendmsg", fd, fl, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, PC) }
    ssize_t __real_write(int, const void *, size_t); ssize_t __wrap_write(int fd, const void *b, size_t n) { OUT(__real_write(fd, b, n), "write", fd, 0, b, n, PC) }
    ssize_t __real_writev(int, const iovec *, int); ssize_t __wrap_writev(int fd, const iovec *v, int c) { OUT(__real_writev(fd, v, c), "writev", fd, 0, v[0].iov_base, c ? v[0].iov_len : 0, PC) }
    int __real_accept(int, sockaddr *, socklen_t *); int __wrap_accept(int fd, sockaddr *a, socklen_t *l) { SYS("accept"); if(sc.o && !wait_for(fd, POLLIN, 0, "accept")) return -1; DID; return __real_accept(fd, a, l); }
    int __real_accept4(int, sockaddr *, socklen_t *, int); int __wrap_accept4(int fd, sockaddr *a, socklen_t *l, int f) { SYS("accept"); if(sc.o && !wait_for(fd, POLLIN, 0, "accept")) return -1; DID; return __real_accept4(fd, a, l, f); }
    int __real_epoll_wait(int, epoll_event *, int, int);
    static int do_epoll(int fd, epoll_event *e, int n, int t, uintptr_t pc)
    {
        SYS("epoll_wait");
        if(!sc.o) return __real_epoll_wait(fd, e, n, t);
        for(;;)
        {
            int r = __real_epoll_wait(fd, e, n, 0);
            if(r > 0) access((uintptr_t) e, (size_t) r * sizeof *e, true, pc);
            if(r || t == 0 || !block("epoll_wait", t > 0)) { unblock(); return r; }
        }
    }
    int __wrap_epoll_wait(int fd, epoll_event *e, int n, int t) { return do_epoll(fd, e, n, t, PC); }
    int __wrap_epoll_pwait(int fd, epoll_event *e, int n, int t, const sigset_t *) { return do_epoll(fd, e, n, t, PC); }
    static int do_poll(pollfd *p, nfds_t n, int t, uintptr_t pc)
    {
        SYS("poll");
        if(!sc.o) return __real_poll(p, n, t);
        for(;;)
        {
            int r = __real_poll(p, n, 0);
            if(n) access((uintptr_t) p, n * sizeof *p, true, pc);
            if(r || t == 0 || !block("poll", t > 0)) { unblock(); return r; }
        }
    }
    int __wrap_poll(pollfd *p, nfds_t n, int t) { return do_poll(p, n, t, PC); }
    int __wrap_ppoll(pollfd *p, nfds_t n, const timespec *t, const sigset_t *) { return do_poll(p, n, t ? (int) (t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1, PC); }
    int __real_select(int, fd_set *, fd_set *, fd_set *, timeval *);
    static int do_select(int n, fd_set *a, fd_set *b, fd_set *c, int t, uintptr_t pc)
    {
        SYS("select");
        timeval tv{};
        if(!sc.o) { tv.tv_sec = t / 1000; tv.tv_usec = t % 1000 * 1000; return __real_select(n, a, b, c, t < 0 ? nullptr : &tv); }
        fd_set *f[3] = {a, b, c}; fd_set s[3];
        for(int i = 0; i < 3; ++i) if(f[i]) { s[i] = *f[i]; access((uintptr_t) f[i], sizeof(fd_set), true, pc); }
        for(;;)
        {
            for(int i = 0; i < 3; ++i) if(f[i]) *f[i] = s[i];
            tv = timeval{};
            int r = __real_select(n, a, b, c, &tv);
            if(r || t == 0 || !block("select", t > 0)) { unblock(); return r; }
        }
    }
    int __wrap_select(int n, fd_set *a, fd_set *b, fd_set *c, timeval *t) { return do_select(n, a, b, c, t ? (int) (t->tv_sec * 1000 + t->tv_usec / 1000) : -1, PC); }
    int __wrap_pselect(int n, fd_set *a, fd_set *b, fd_set *c, const timespec *t, const sigset_t *) { return do_select(n, a, b, c, t ? (int) (t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1, PC); }
#define PLAIN(ret, name, args, call) ret __real_##name args; ret __wrap_##name args { SYS(#name); DID; return __real_##name call; }
    PLAIN(int, connect, (int fd, const sockaddr *a, socklen_t l), (fd, a, l))
    PLAIN(int, socket, (int a, int b, int c), (a, b, c))
    PLAIN(int, bind, (int fd, const sockaddr *a, socklen_t l), (fd, a, l))
    PLAIN(int, listen, (int fd, int n), (fd, n))
    PLAIN(int, close, (int fd), (fd))
    PLAIN(int, shutdown, (int fd, int h), (fd, h))
    PLAIN(int, setsockopt, (int fd, int a, int b, const void *c, socklen_t d), (fd, a, b, c, d))
    PLAIN(int, epoll_ctl, (int fd, int a, int b, epoll_event *c), (fd, a, b, c))
    PLAIN(int, epoll_create1, (int a), (a))
    PLAIN(int, getaddrinfo, (const char *a, const char *b, const addrinfo *c, addrinfo **d), (a, b, c, d))
    PLAIN(int, getnameinfo, (const sockaddr *a, socklen_t b, char *c, socklen_t d, char *e, socklen_t f, int g), (a, b, c, d, e, f, g))
    PLAIN(int, nanosleep, (const timespec *a, timespec *b), (a, b))
    PLAIN(int, usleep, (useconds_t a), (a))
}
