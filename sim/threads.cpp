// Simulated threads and the instrumentation runtime of the thread flavour (replaces libtsan).
// The code under test calls __tsan_* at every memory access and atomic operation; these are the scheduling
// points, and the vector clocks below decide whether conflicting accesses are ordered.
#include "threads.hpp"
#include <algorithm>
#include <cerrno>
#include <clocale>
#include <cmath>
#include <ctime>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <map>
#include <linux/futex.h>
#include <pthread.h>
#include <random>
#include <semaphore.h>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim
{
extern void (*hook_alloc)(void*, size_t);
extern void (*hook_free)(void*, size_t);

typedef uint32_t Clock;
struct Thr
{
    int id = 0;
    pthread_t handle;
    sem_t sem;
    bool finished = false, blocked = false;
    Clock vc[MAX_THREADS] = {};
    // program position
    int op = -1;
    const Op* cur = nullptr;
    u64 count = 0;           // accesses within the operation
    u64 spins = 0;           // atomic operations since the thread was last switched to
    u64 next_at = ~0ull;     // next planned preemption within the operation
    size_t next_preempt = 0;
    std::vector<Preempt> plan; // of the current operation, sorted
    const Plan* all = nullptr;
    char* stack_lo = nullptr;
    char* stack_hi = nullptr;
    // state of the fault seams, swapped at a switch
    State seams;
};
static thread_local Thr* self = nullptr;
static Thr* thr[MAX_THREADS];
static int n_thr = 0;
static sem_t main_sem;
static Rng rng(1);
static i64 quantum = 0;
static i64 until_switch = 0;
static RunInfo info;
static void (*body_fn)(int);
static pthread_key_t exit_key;

// ---------------------------------------------------------------- shadow memory, byte precise
struct Cell
{
    Clock w[MAX_THREADS][8], r[MAX_THREADS][8];
    uint16_t wop[MAX_THREADS], rop[MAX_THREADS];
    uint64_t wpc[MAX_THREADS], rpc[MAX_THREADS];
};
struct Shadow
{
    struct E { u64 key; uint32_t gen, idx; };
    E* t = nullptr;
    size_t cap = 0, used = 0;
    uint32_t gen = 1;
    Cell* cells = nullptr;
    size_t n_cells = 0, cap_cells = 0;

    void reset()
    {
        ++gen;
        used = n_cells = 0;
    }
    E* slot(u64 key)
    {
        size_t i = (key * 0x9e3779b97f4a7c15ull >> 20) & (cap - 1);
        while (t[i].gen == gen && t[i].key != key)
        {
            i = (i + 1) & (cap - 1);
        }
        return &t[i];
    }
    Cell* find(u64 key)
    {
        if (!cap)
        {
            return nullptr;
        }
        E* e = slot(key);
        return e->gen == gen ? &cells[e->idx] : nullptr;
    }
    Cell* get(u64 key)
    {
        if ((used + 1) * 2 > cap)
        {
            E* old = t;
            size_t oc = cap;
            cap = cap ? cap * 2 : 1 << 13;
            t = (E*)calloc(cap, sizeof(E));
            for (size_t i = 0; i < oc; ++i)
            {
                if (old[i].gen == gen)
                {
                    *slot(old[i].key) = old[i];
                }
            }
            free(old);
        }
        E* e = slot(key);
        if (e->gen != gen)
        {
            if (n_cells == cap_cells)
            {
                cap_cells = cap_cells ? cap_cells * 2 : 1 << 12;
                cells = (Cell*)realloc((void*)cells, cap_cells * sizeof(Cell));
            }
            memset((void*)&cells[n_cells], 0, sizeof(Cell));
            *e = {key, gen, (uint32_t)n_cells++};
            ++used;
        }
        return &cells[e->idx];
    }
    void clear(u64 a, u64 n)
    {
        if (!used || n > (1u << 22))
        {
            return;
        }
        for (u64 k = a >> 3; k <= (a + (n ? n - 1 : 0)) >> 3; ++k)
        {
            if (Cell* c = find(k))
            {
                memset((void*)c, 0, sizeof(Cell));
            }
        }
    }
};
static Shadow shadow;
static bool tracking = false;

struct Sync
{
    Clock vc[MAX_THREADS] = {};
};
struct Lock
{
    int owner = -1, depth = 0;
    int readers = 0;
    bool held_by[MAX_THREADS] = {};
};
static std::map<u64, Sync>* syncs;
static std::map<u64, Lock>* locks;

static std::string where(u64 pc)
{
    Dl_info d;
    if (pc && dladdr((void*)pc, &d) && d.dli_sname)
    {
        int status = 0;
        char* n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &status);
        std::string s = n ? n : d.dli_sname;
        free(n);
        return s.substr(0, 160);
    }
    return "?";
}

static void report(const Thr* a, int b, const Cell& c, bool write, bool bw, u64 pc, size_t size)
{
    uint16_t bop = bw ? c.wop[b] : c.rop[b];
    tracking = false;
    std::string w1 = where(pc), w2 = where(bw ? c.wpc[b] : c.rpc[b]);
    fail("data-race", "thread %d, operation %d %s: %s %zu bytes in %s; thread %d, operation %d: %s the same location in %s; nothing orders the two", a->id, a->op, a->cur ? world.op_names[a->cur->code] : "?", write ? "writes" : "reads", size, w1.c_str(), b, (int)bop, bw ? "wrote" : "read", w2.c_str());
}

static void check_range(Thr* s, u64 a, size_t n, bool write, u64 pc, bool record)
{
    for (u64 k = a >> 3, e = (a + n - 1) >> 3; k <= e; ++k)
    {
        Cell* c = record ? shadow.get(k) : shadow.find(k);
        if (!c)
        {
            continue;
        }
        int lo = k == a >> 3 ? (int)(a & 7) : 0, hi = k == e ? (int)((a + n - 1) & 7) : 7;
        for (int u = 0; u < n_thr; ++u)
        {
            if (u == s->id)
            {
                continue;
            }
            Clock seen = s->vc[u];
            for (int b = lo; b <= hi; ++b)
            {
                if (c->w[u][b] > seen)
                {
                    report(s, u, *c, write, true, pc, n);
                }
                if (write && c->r[u][b] > seen)
                {
                    report(s, u, *c, write, false, pc, n);
                }
            }
        }
        if (record)
        {
            Clock now = s->vc[s->id];
            for (int b = lo; b <= hi; ++b)
            {
                (write ? c->w : c->r)[s->id][b] = now;
            }
            (write ? c->wop : c->rop)[s->id] = (uint16_t)s->op;
            (write ? c->wpc : c->rpc)[s->id] = pc;
        }
    }
}

// memory handed out by an allocator: earlier uses of the same bytes are ordered by the allocator
static void fresh(u64 a, size_t n)
{
    Thr* s = self;
    if (tracking && s)
    {
        self = nullptr;
        shadow.clear(a, n);
        self = s;
    }
}

// ---------------------------------------------------------------- scheduling
static void save_seams(State& d)
{
    d.depth = st.depth, d.fk = st.fk, d.fn = st.fn, d.n_alloc = st.n_alloc, d.n_copy = st.n_copy, d.n_cmp = st.n_cmp, d.n_cb = st.n_cb, d.n_src = st.n_src, d.fired = st.fired, d.cap = st.cap;
}
static void load_seams(const State& d)
{
    st.depth = d.depth, st.fk = d.fk, st.fn = d.fn, st.n_alloc = d.n_alloc, st.n_copy = d.n_copy, st.n_cmp = d.n_cmp, st.n_cb = d.n_cb, st.n_src = d.n_src, st.fired = d.fired, st.cap = d.cap;
}
static void wait_sem(sem_t* s)
{
    while (sem_wait(s) != 0) {}
}
static int pick(int not_this)
{
    int cand[MAX_THREADS], n = 0;
    for (int i = 0; i < n_thr; ++i)
    {
        if (i != not_this && !thr[i]->finished && !thr[i]->blocked)
        {
            cand[n++] = i;
        }
    }
    return n ? cand[rng.below(n)] : -1;
}
static void switch_to(Thr* from, int to)
{
    save_seams(from->seams);
    ++info.switches;
    note(mix2(0x5c4ed, (u64)to * 65536 + (u64)from->op * 1024 + std::min<u64>(from->count, 1000)));
    Thr* t = thr[to];
    cur_op = t->cur ? t->cur : cur_op;
    load_seams(t->seams);
    sem_post(&t->sem);
    wait_sem(&from->sem);
    // whoever switched back has loaded our seams
    from->spins = 0;
    cur_op = from->cur ? from->cur : cur_op;
}
static void preempt(Thr* s, int want)
{
    int to = want >= 0 && want < n_thr && want != s->id && !thr[want]->finished && !thr[want]->blocked ? want : pick(s->id);
    if (to >= 0)
    {
        bool f = st.fired;
        count_fault(F_PREEMPT);
        st.fired = f;
        switch_to(s, to);
    }
}
static inline void point(Thr* s)
{
    if (++info.accesses > st.step_limit)
    {
        self = nullptr;
        fail("hang", "no termination within %llu memory accesses", (unsigned long long)st.step_limit);
    }
    ++s->count;
    if (s->count >= s->next_at)
    {
        int to = s->plan[s->next_preempt].to;
        ++s->next_preempt;
        s->next_at = s->next_preempt < s->plan.size() ? (u64)s->plan[s->next_preempt].at : ~0ull;
        preempt(s, to);
    }
    else if (quantum && --until_switch <= 0)
    {
        until_switch = 1 + (i64)rng.below(2 * quantum);
        preempt(s, -1);
    }
}
static void block(Thr* s, const char* what)
{
    // the lock's holder must run; give up the baton
    s->blocked = true;
    int to = pick(s->id);
    if (to < 0)
    {
        self = nullptr;
        fail("deadlock", "every unfinished thread waits for a lock; thread %d waits in %s", s->id, what);
    }
    switch_to(s, to);
}
// the thread does not insist on running (it yields, sleeps or spins)
static void give_way(Thr* s)
{
    s->spins = 0;
    int to = pick(s->id);
    if (to >= 0)
    {
        switch_to(s, to);
    }
}
static void wake_all()
{
    for (int i = 0; i < n_thr; ++i)
    {
        thr[i]->blocked = false;
    }
}
static void finish_thread(void*)
{
    Thr* s = self;
    if (!s)
    {
        return;
    }
    self = nullptr;
    s->finished = true;
    save_seams(s->seams);
    int to = pick(s->id);
    if (to >= 0)
    {
        Thr* t = thr[to];
        cur_op = t->cur ? t->cur : cur_op;
        load_seams(t->seams);
        sem_post(&t->sem);
        return;
    }
    for (int i = 0; i < n_thr; ++i)
    {
        if (!thr[i]->finished)
        {
            fail("deadlock", "thread %d waits for a lock that a finished thread holds", i);
        }
    }
    sem_post(&main_sem);
}
static void* thread_main(void* p)
{
    Thr* s = (Thr*)p;
    wait_sem(&s->sem);
    pthread_setspecific(exit_key, s); // its destructor runs after the destructors of thread_local objects
    pthread_attr_t at;
    if (pthread_getattr_np(pthread_self(), &at) == 0)
    {
        void* lo;
        size_t n;
        pthread_attr_getstack(&at, &lo, &n);
        s->stack_lo = (char*)lo;
        s->stack_hi = (char*)lo + n;
        pthread_attr_destroy(&at);
    }
    self = s;
    body_fn(s->id);
    return nullptr;
}

// no operation of a library hands a lock to its caller: whoever comes next would wait for ever
static void check_released(Thr* s)
{
    for (auto& l : *locks)
    {
        if (l.second.owner == s->id)
        {
            self = nullptr;
            fail("lock-kept", "thread %d, operation %d %s: ended without releasing a lock it took", s->id, s->op, s->cur ? world.op_names[s->cur->code] : "?");
        }
    }
}
void thread_op_done()
{
    if (Thr* s = self)
    {
        check_released(s);
    }
}

void thread_op(int index, const Op& op)
{
    Thr* s = self;
    if (!s)
    {
        return;
    }
    s->op = index;
    s->cur = &op;
    cur_op = &op;
    s->count = 0;
    self = nullptr;
    s->plan.clear();
    for (auto& p : s->all->preempts)
    {
        if (p.op == index)
        {
            s->plan.push_back(p);
        }
    }
    std::sort(s->plan.begin(), s->plan.end(), [](const Preempt& a, const Preempt& b) { return a.at < b.at; });
    s->next_preempt = 0;
    s->next_at = s->plan.empty() ? ~0ull : (u64)s->plan[0].at;
    self = s;
}

RunInfo run_threads(int n, void (*body)(int t), const Plan* plans, u64 seed, i64 q)
{
    static bool once = false;
    if (!once)
    {
        once = true;
        pthread_key_create(&exit_key, finish_thread);
        syncs = new std::map<u64, Sync>;
        locks = new std::map<u64, Lock>;
        hook_alloc = [](void* p, size_t n) { fresh((u64)p, n); };
        hook_free = [](void* p, size_t n) {
            Thr* s = self;
            if (tracking && s)
            {
                // freeing conflicts with unordered uses of the block
                self = nullptr;
                if (n)
                {
                    check_range(s, (u64)p, n, true, 0, false);
                }
                shadow.clear((u64)p, n);
                self = s;
            } };
    }
    info = RunInfo();
    rng = Rng(seed);
    quantum = q;
    until_switch = q ? 1 + (i64)rng.below(2 * q) : 0;
    body_fn = body;
    n_thr = n;
    shadow.reset();
    syncs->clear();
    locks->clear();
    sem_init(&main_sem, 0, 0);
    State saved = st;
    const Op* saved_op = cur_op;
    disarm();
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 512 << 10);
    for (int i = 0; i < n; ++i)
    {
        Thr* t = thr[i] = new Thr;
        t->id = i;
        t->all = &plans[i];
        t->vc[i] = 1;
        sem_init(&t->sem, 0, 0);
        if (pthread_create(&t->handle, &at, thread_main, t) != 0)
        {
            fprintf(stderr, "cannot create a thread\n");
            _Exit(2);
        }
    }
    pthread_attr_destroy(&at);
    tracking = true;
    int first = (int)rng.below(n);
    load_seams(thr[first]->seams);
    sem_post(&thr[first]->sem);
    wait_sem(&main_sem);
    for (int i = 0; i < n; ++i)
    {
        pthread_join(thr[i]->handle, nullptr);
    }
    tracking = false;
    for (int i = 0; i < n; ++i)
    {
        sem_destroy(&thr[i]->sem);
        delete thr[i];
        thr[i] = nullptr;
    }
    n_thr = 0;
    load_seams(saved);
    cur_op = saved_op;
    return info;
}

// ---------------------------------------------------------------- instrumentation entry points
static inline void on_access(void* p, size_t n, bool write, void* pc)
{
    Thr* s = self;
    if (!s)
    {
        return;
    }
    point(s);
    // addresses on the own stack are private unless they were handed out; nothing in a program under test hands them out
    if ((char*)p >= s->stack_lo && (char*)p < s->stack_hi)
    {
        return;
    }
    self = nullptr;
    check_range(s, (u64)p, n, write, (u64)pc, true);
    self = s;
}
static void on_sync(Thr* s, u64 a, bool acquire, bool release)
{
    self = nullptr;
    ++info.syncs;
    Out harness;
    Sync& y = (*syncs)[a];
    for (int u = 0; u < n_thr && acquire; ++u)
    {
        s->vc[u] = std::max(s->vc[u], y.vc[u]);
    }
    if (release)
    {
        for (int u = 0; u < n_thr; ++u)
        {
            y.vc[u] = std::max(y.vc[u], s->vc[u]);
        }
        ++s->vc[s->id];
    }
    self = s;
}
static void on_atomic(const volatile void* p, size_t n, bool reads, bool writes, int mo, void* pc)
{
    Thr* s = self;
    if (!s)
    {
        return;
    }
    point(s);
    if (++s->spins > 200) // it may be waiting for another thread in a loop: that thread has to run
    {
        give_way(s);
    }
    mo &= 0xff;
    bool acq = reads && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE;
    bool rel = writes && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME;
    if (acq)
    {
        on_sync(s, (u64)p, true, false);
    }
    if (!((char*)p >= s->stack_lo && (char*)p < s->stack_hi))
    {
        self = nullptr;
        check_range(s, (u64)p, n, writes, (u64)pc, false); // against plain accesses
        self = s;
    }
    if (rel)
    {
        on_sync(s, (u64)p, false, true);
    }
}
static u64 fence_key = 1;
} // namespace sim

using namespace sim;
template <class F>
static F real(F& f, const char* name)
{
    if (!f)
    {
        f = (F)dlsym(RTLD_NEXT, name);
    }
    return f;
}
#define PC __builtin_return_address(0)
extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void* p) { on_access(p, N, false, PC); } \
    void __tsan_write##N(void* p) { on_access(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { on_access(p, N, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { on_access(p, N, true, PC); } \
    void __tsan_volatile_read##N(void* p) { on_access(p, N, false, PC); } \
    void __tsan_volatile_write##N(void* p) { on_access(p, N, true, PC); } \
    void __tsan_read_write##N(void* p) { on_access(p, N, true, PC); } \
    void __tsan_unaligned_read_write##N(void* p) { on_access(p, N, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, size_t n)
{
    if (n)
    {
        on_access(p, n, false, PC);
    }
}
void __tsan_write_range(void* p, size_t n)
{
    if (n)
    {
        on_access(p, n, true, PC);
    }
}
void __tsan_vptr_update(void** p, void*) { on_access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { on_access(p, 8, false, PC); }

#define ATOMIC(BITS, T) \
    T __tsan_atomic##BITS##_load(const volatile T* p, int mo) \
    { \
        on_atomic(p, sizeof(T), true, false, mo, PC); \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST); \
    } \
    void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo) \
    { \
        on_atomic(p, sizeof(T), false, true, mo, PC); \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST); \
    } \
    T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int mo) \
    { \
        on_atomic(p, sizeof(T), true, true, mo, PC); \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); \
    } \
    T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int mo) \
    { \
        on_atomic(p, sizeof(T), true, true, mo, PC); \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); \
    } \
    T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int mo) \
    { \
        on_atomic(p, sizeof(T), true, true, mo, PC); \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); \
    } \
    T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int mo) \
    { \
        on_atomic(p, sizeof(T), true, true, mo, PC); \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); \
    } \
    T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int mo) \
    { \
        on_atomic(p, sizeof(T), true, true, mo, PC); \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); \
    } \
    T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int mo) \
    { \
        on_atomic(p, sizeof(T), true, true, mo, PC); \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); \
    } \
    T __tsan_atomic##BITS##_fetch_nand(volatile T* p, T v, int mo) \
    { \
        on_atomic(p, sizeof(T), true, true, mo, PC); \
        return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); \
    } \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) \
    { \
        on_atomic(p, sizeof(T), true, true, mo, PC); \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    } \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) \
    { \
        on_atomic(p, sizeof(T), true, true, mo, PC); \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int)
{
    if (Thr* s = self)
    {
        point(s);
        on_sync(s, fence_key, true, true);
    }
}
void __tsan_atomic_signal_fence(int) {}
// annotations of locks that the library cannot see, as used by std::atomic<std::shared_ptr>
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void* m, unsigned, int)
{
    if (Thr* s = self)
    {
        on_sync(s, (u64)m, true, false);
    }
}
int __tsan_mutex_pre_unlock(void* m, unsigned)
{
    if (Thr* s = self)
    {
        on_sync(s, (u64)m, false, true);
    }
    return 0;
}
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}
void __tsan_acquire(void* m) { __tsan_mutex_post_lock(m, 0, 0); }
void __tsan_release(void* m) { __tsan_mutex_pre_unlock(m, 0); }

// ---- memory functions of the C library, as called by the code under test (linked with --wrap)
#define RANGE(p, n, w) \
    do \
    { \
        if (self && (n)) \
        { \
            on_access((void*)(p), (n), (w), PC); \
        } \
    } while (0)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
size_t __real_strlen(const char*);
void* __real_memchr(const void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    RANGE(s, n, false);
    RANGE(d, n, true);
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    RANGE(s, n, false);
    RANGE(d, n, true);
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    RANGE(d, n, true);
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
    RANGE(a, n, false);
    RANGE(b, n, false);
    return __real_memcmp(a, b, n);
}
int __wrap_bcmp(const void* a, const void* b, size_t n)
{
    RANGE(a, n, false);
    RANGE(b, n, false);
    return __real_memcmp(a, b, n);
}
size_t __wrap_strlen(const char* s)
{
    size_t n = __real_strlen(s);
    RANGE(s, n + 1, false);
    return n;
}
void* __wrap_memchr(const void* s, int c, size_t n)
{
    RANGE(s, n, false);
    return __real_memchr(s, c, n);
}

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n)
{
    void* p = __real_malloc(n);
    fresh((u64)p, n);
    return p;
}
void* __wrap_calloc(size_t n, size_t m)
{
    void* p = __real_calloc(n, m);
    fresh((u64)p, n * m);
    return p;
}
void* __wrap_realloc(void* q, size_t n)
{
    void* p = __real_realloc(q, n);
    fresh((u64)p, n);
    return p;
}
// functions of the C library that keep their result or position in one static object
static char c_static[8];
#define UNSAFE(ret, name, decl, args) \
    ret __real_##name decl; \
    ret __wrap_##name decl \
    { \
        RANGE(c_static, sizeof c_static, true); \
        return __real_##name args; \
    }
UNSAFE(char*, strtok, (char* a, const char* b), (a, b))
UNSAFE(char*, setlocale, (int a, const char* b), (a, b))
UNSAFE(char*, asctime, (const struct tm* a), (a))
UNSAFE(struct tm*, localtime, (const time_t* a), (a))
UNSAFE(struct tm*, gmtime, (const time_t* a), (a))
UNSAFE(double, lgamma, (double a), (a))
UNSAFE(double, drand48, (), ())
UNSAFE(void, srand48, (long a), (a))

// waiting: time is simulated, so a sleeper just lets the others run
int __real_sched_yield();
int __wrap_sched_yield()
{
    if (Thr* s = self)
    {
        point(s);
        give_way(s);
        return 0;
    }
    return __real_sched_yield();
}
int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* a, struct timespec* b)
{
    if (Thr* s = self)
    {
        point(s);
        give_way(s);
        return 0;
    }
    return __real_nanosleep(a, b);
}
int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b)
{
    if (Thr* s = self)
    {
        point(s);
        give_way(s);
        return 0;
    }
    return __real_clock_nanosleep(c, f, a, b);
}
int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t u)
{
    if (Thr* s = self)
    {
        point(s);
        give_way(s);
        return 0;
    }
    return __real_usleep(u);
}
long __real_syscall(long, long, long, long, long, long, long);
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    Thr* s = self;
    if (s && n == SYS_futex) // std::atomic::wait and notify; a wait may always end spuriously
    {
        point(s);
        int cmd = (int)b & FUTEX_CMD_MASK;
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
        {
            give_way(s);
        }
        return 0;
    }
    return __real_syscall(n, a, b, c, d, e, f);
}

static void* (*real_exception)(size_t);
void* __cxa_allocate_exception(size_t n) noexcept
{
    if (!real_exception)
    {
        real_exception = (void* (*)(size_t))dlsym(RTLD_NEXT, "__cxa_allocate_exception");
    }
    void* p = real_exception(n);
    fresh((u64)p, n);
    return p;
}

// ---- locks: simulated for simulated threads, real for everybody else
static int (*real_lock)(pthread_mutex_t*);
static int (*real_trylock)(pthread_mutex_t*);
static int (*real_unlock)(pthread_mutex_t*);
static Lock& lock_of(u64 key)
{
    Out harness;
    return (*locks)[key];
}
static int sim_lock(Thr* s, u64 key, bool exclusive, bool try_only, bool recursive, const char* what)
{
    point(s);
    while (true)
    {
        self = nullptr;
        Lock& l = lock_of(key);
        bool mine = l.owner == s->id;
        bool ok = exclusive ? (l.owner < 0 && l.readers == 0) || (mine && recursive) : l.owner < 0;
        if (ok)
        {
            if (exclusive)
            {
                l.owner = s->id;
                ++l.depth;
            }
            else
            {
                ++l.readers;
            }
            self = s;
            on_sync(s, key, true, false);
            return 0;
        }
        self = s;
        if (try_only)
        {
            return EBUSY;
        }
        if (mine)
        {
            self = nullptr;
            fail("deadlock", "thread %d locks a mutex it holds", s->id);
        }
        block(s, what);
    }
}
static int sim_unlock(Thr* s, u64 key)
{
    on_sync(s, key, false, true);
    self = nullptr;
    Lock& l = lock_of(key);
    if (l.owner == s->id)
    {
        if (--l.depth == 0)
        {
            l.owner = -1;
        }
    }
    else if (l.readers > 0)
    {
        --l.readers;
    }
    wake_all();
    self = s;
    point(s);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (Thr* s = self)
    {
        return sim_lock(s, (u64)m, true, false, m->__data.__kind & PTHREAD_MUTEX_RECURSIVE_NP, "pthread_mutex_lock");
    }
    return real(real_lock, "pthread_mutex_lock")(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (Thr* s = self)
    {
        return sim_lock(s, (u64)m, true, true, m->__data.__kind & PTHREAD_MUTEX_RECURSIVE_NP, "pthread_mutex_trylock");
    }
    return real(real_trylock, "pthread_mutex_trylock")(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (Thr* s = self)
    {
        return sim_unlock(s, (u64)m);
    }
    return real(real_unlock, "pthread_mutex_unlock")(m);
}
static int (*real_rd)(pthread_rwlock_t*);
static int (*real_wr)(pthread_rwlock_t*);
static int (*real_tryrd)(pthread_rwlock_t*);
static int (*real_trywr)(pthread_rwlock_t*);
static int (*real_rwun)(pthread_rwlock_t*);
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (Thr* s = self)
    {
        return sim_lock(s, (u64)m, false, false, false, "pthread_rwlock_rdlock");
    }
    return real(real_rd, "pthread_rwlock_rdlock")(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (Thr* s = self)
    {
        return sim_lock(s, (u64)m, true, false, false, "pthread_rwlock_wrlock");
    }
    return real(real_wr, "pthread_rwlock_wrlock")(m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if (Thr* s = self)
    {
        return sim_lock(s, (u64)m, false, true, false, "pthread_rwlock_tryrdlock");
    }
    return real(real_tryrd, "pthread_rwlock_tryrdlock")(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if (Thr* s = self)
    {
        return sim_lock(s, (u64)m, true, true, false, "pthread_rwlock_trywrlock");
    }
    return real(real_trywr, "pthread_rwlock_trywrlock")(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (Thr* s = self)
    {
        return sim_unlock(s, (u64)m);
    }
    return real(real_rwun, "pthread_rwlock_unlock")(m);
}
static int (*real_once)(pthread_once_t*, void (*)());
int pthread_once(pthread_once_t* o, void (*f)())
{
    Thr* s = self;
    if (!s)
    {
        return real(real_once, "pthread_once")(o, f);
    }
    // 0: not run, 2: done (as in glibc); in between it is a lock
    if (*(volatile int*)o == 2)
    {
        on_sync(s, (u64)o, true, false);
        return 0;
    }
    sim_lock(s, (u64)o, true, false, false, "pthread_once");
    if (*(volatile int*)o != 2)
    {
        try
        {
            f();
        }
        catch (...)
        {
            sim_unlock(s, (u64)o);
            throw;
        }
        *(volatile int*)o = 2;
    }
    sim_unlock(s, (u64)o);
    return 0;
}
static int (*real_cwait)(pthread_cond_t*, pthread_mutex_t*);
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    Thr* s = self;
    if (!s)
    {
        return real(real_cwait, "pthread_cond_wait")(c, m);
    }
    // a spurious wake-up, always allowed
    sim_unlock(s, (u64)m);
    preempt(s, -1);
    sim_lock(s, (u64)m, true, false, false, "pthread_cond_wait");
    return 0;
}

// ---- function-local statics
int __cxa_guard_acquire(u64* g)
{
    Thr* s = self;
    volatile char* done = (volatile char*)g;
    if (!s)
    {
        return !*done;
    }
    if (*done)
    {
        on_sync(s, (u64)g, true, false);
        return 0;
    }
    sim_lock(s, (u64)g, true, false, false, "initialisation of a function-local static");
    if (*done)
    {
        sim_unlock(s, (u64)g);
        return 0;
    }
    return 1;
}
void __cxa_guard_release(u64* g)
{
    *(volatile char*)g = 1;
    if (Thr* s = self)
    {
        sim_unlock(s, (u64)g);
    }
}
void __cxa_guard_abort(u64* g)
{
    if (Thr* s = self)
    {
        sim_unlock(s, (u64)g);
    }
}
}

// ---------------------------------------------------------------- entropy: the same words for the same thread and program
static u64 entropy_world = 0;
void sim::entropy_of(u64 w) { entropy_world = w; }
static thread_local u64 entropy_state = 0;
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval()
{
    return (unsigned)mix64(mix2(entropy_world, mix2(self ? self->id + 1 : 0, ++entropy_state)));
}
double std::random_device::_M_getentropy() const noexcept { return entropy_world & 1 ? 32 : 0; }
