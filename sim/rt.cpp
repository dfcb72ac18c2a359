// Simulation runtime and driver (not instrumented).
#include "rt.hpp"

#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <fcntl.h>
#include <ios>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <cxxabi.h>

extern "C" const char* __asan_default_options()
{
    return "exitcode=77:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:symbolize=0:"
           "quarantine_size_mb=16:thread_local_quarantine_size_kb=64:max_malloc_fill_size=0:"
           "malloc_context_size=0:fast_unwind_on_malloc=1:detect_stack_use_after_return=0:"
           "allocator_release_to_os_interval_ms=-1:poison_history_size=0:max_allocation_size_mb=4600";
}
extern "C" const char* __ubsan_default_options() { return "exitcode=78:print_stacktrace=0:symbolize=0"; }

namespace sim
{
const char* const fault_names[F_NKINDS] = {"none", "alloc_fail", "alloc_fail_sticky", "alloc_fail_sweep", "scratch_refused", "copy_throw", "compare_throw", "callback_throw", "source_throw", "heap_limit", "read_eof", "read_error", "write_short", "write_error", "flush_fail", "crash", "torn_write", "lost_write", "bit_flip", "entropy_pathological", "device_fail", "preempt", "read_chunk"};
const char* const kind_names[] = {"OK", "std::runtime_error", "std::bad_alloc", "element-fault", "callback-fault", "source-fault", "device-fault", "std::ios_base::failure", "std::length_error", "other-exception"};

State st;
const Op* cur_op = nullptr;
static const Op none_op;

// ---------------------------------------------------------------- shared memory with the parent
static const int MAX_PROBES = 96;
static const u64 MAX_DIGESTS = 1 << 18;
struct Shared
{
    volatile int seg, op;
    volatile int viol;
    char cls[64];
    char msg[4096];
    u64 digest_at_end;
    u64 segments, ops, steps, faulted_segments;
    u64 fired[F_NKINDS];
    int n_probes;
    struct { char name[48]; u64 n; } probes[MAX_PROBES];
    u64 n_digests, dropped_digests;
    u64 digests[MAX_DIGESTS];
    char trace[1 << 16];
    u64 trace_len;
};
static Shared* sh = nullptr;
static bool leak_retry = false;

static void vtrim(char* dst, size_t cap, const char* f, va_list ap)
{
    vsnprintf(dst, cap, f, ap);
}

void fail(const char* cls, const char* f, ...)
{
    st.depth = 0;
    va_list ap;
    va_start(ap, f);
    snprintf(sh->cls, sizeof sh->cls, "%s", cls);
    vtrim(sh->msg, sizeof sh->msg, f, ap);
    va_end(ap);
    sh->viol = 1;
    sh->digest_at_end = st.digest;
    _exit(3);
}

std::string fmt(const char* f, ...)
{
    char buf[8192];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

std::string show(const std::string& s, size_t max)
{
    std::string r = "\"";
    for (size_t i = 0; i < s.size() && i < max; ++i)
    {
        unsigned char c = s[i];
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c >= 0x20 && c < 0x7f)
        {
            r += c;
        }
        else
        {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    }
    r += s.size() > max ? "\"..." : "\"";
    return r;
}

void known(const char* key, const char* text)
{
    const char* list = getenv("SIM_KNOWN");
    if (!list || !strstr(list, (std::string(" ") + key + " ").c_str()))
    {
        fail(key, "%s", text);
    }
    probe((std::string("known:") + key).c_str());
}
void probe(const char* name, u64 n)
{
    for (int i = 0; i < sh->n_probes; ++i)
    {
        if (!strcmp(sh->probes[i].name, name))
        {
            sh->probes[i].n += n;
            return;
        }
    }
    if (sh->n_probes < MAX_PROBES)
    {
        snprintf(sh->probes[sh->n_probes].name, 48, "%s", name);
        sh->probes[sh->n_probes++].n = n;
    }
}

u64 hash_str(const std::string& s)
{
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s)
    {
        h = (h ^ c) * 1099511628211ull;
    }
    return h;
}

void count_fault(int kind, u64 n)
{
    if (n)
    {
        sh->fired[kind] += n;
        st.fired = true;
        note(0xfa000000ull + kind);
    }
}

void arm(int fk, i64 fn)
{
    st.fk = fk;
    st.fn = fn;
    st.n_alloc = st.n_copy = st.n_cmp = st.n_cb = st.n_src = 0;
    st.fired = false;
    st.cap = fk == F_CAP ? st.live_bytes + (u64)fn * 1024 : ~0ull;
}
void disarm()
{
    st.fk = F_NONE;
    st.cap = ~0ull;
    st.fired = false;
}

Kind classify(std::string& what)
{
    int saved = st.depth;
    st.depth = 0;
    Kind k = OTHER;
    try
    {
        throw;
    }
    catch (const ElemFault&)
    {
        k = ELEM;
    }
    catch (const CallbackFault&)
    {
        k = CB;
    }
    catch (const SourceFault&)
    {
        k = SRC;
    }
    catch (const DeviceFault&)
    {
        k = DEVICE;
    }
    catch (const std::bad_alloc& e)
    {
        k = BADALLOC;
    }
    catch (const std::ios_base::failure& e)
    {
        k = IOS;
        what = e.what();
    }
    catch (const std::runtime_error& e)
    {
        k = RTE;
        what = e.what();
    }
    catch (const std::length_error& e)
    {
        k = LENGTH;
        what = e.what();
    }
    catch (const std::exception& e)
    {
        what = std::string(typeid(e).name()) + ": " + e.what();
    }
    catch (...)
    {
        what = "unknown";
    }
    st.depth = saved;
    return k;
}

// Runs f as code under test with the currently armed fault.
Outcome sut_armed(FRef f)
{
    Outcome o;
    int saved = st.depth;
    st.steps = 0;
    st.depth = saved + 1;
    try
    {
        f();
        st.depth = saved;
    }
    catch (...)
    {
        st.depth = saved;
        o.k = classify(o.what);
    }
    st.steps_total += st.steps;
    o.fired = st.fired;
    return o;
}

// Runs f as code under test without faults; any exception other than std::runtime_error is a violation.
Outcome sut_clean(FRef f)
{
    disarm();
    Outcome o = sut_armed(f);
    if (o.k != OK && o.k != RTE)
    {
        fail("unexpected-exception", "%s thrown with no fault injected: %s", kind_names[o.k], o.what.c_str());
    }
    return o;
}

// Runs f, an observation that must succeed.
void must(const char* what, FRef f)
{
    disarm();
    Outcome o = sut_armed(f);
    if (o.k != OK)
    {
        fail("observation-failed", "%s failed: %s %s", what, kind_names[o.k], o.what.c_str());
    }
}

// Runs one operation with the fault of the current op. After a failure caused by the injected fault,
// on_fail(outcome) verifies the state and says whether to repeat the operation. Returns the final outcome
// (OK, RTE or, when on_fail gave up, the faulted outcome).
Outcome run_op(FRef f, VRef on_fail)
{
    const Op& op = *cur_op;
    i64 n = op.fn;
    int fk = op.fk;
    int rounds = 0;
    bool sweep = fk == F_ALLOC_SWEEP;
    if (sweep)
    {
        n = 1;
    }
    while (true)
    {
        if (sweep)
        {
            arm(F_ALLOC, n);
        }
        else if (rounds == 0)
        {
            arm(fk, n);
        }
        else
        {
            disarm();
        }
        Outcome o = sut_armed(f);
        disarm();
        ++rounds;
        if (o.fired)
        {
            ++st.faults_in_segment;
        }
        note(mix2(o.k, o.fired));
        if (o.k == OK || o.k == RTE)
        {
            return o;
        }
        if (!o.faulted())
        {
            fail("unexpected-exception", "%s (%s) thrown without a matching injected fault", kind_names[o.k], o.what.c_str());
        }
        if (on_fail(o) == GIVE_UP)
        {
            return o;
        }
        if (sweep)
        {
            // dense at first, then sparse: the first 24 allocations one by one
            n += n < 24 ? 1 : n / 6;
            if (rounds > 48)
            {
                sweep = false;
            }
        }
    }
}

// user code fails with exceptions of its own and of the standard library, the kinds the library throws itself included
template <class F>
[[noreturn]] static void throw_fault(F f)
{
    struct Runtime : F, std::runtime_error
    {
        explicit Runtime(F f) : F(f), std::runtime_error("sim: user code failed") {}
    };
    struct Alloc : F, std::bad_alloc
    {
        explicit Alloc(F f) : F(f) {}
    };
    struct Range : F, std::out_of_range
    {
        explicit Range(F f) : F(f), std::out_of_range("sim: user code failed") {}
    };
    Out out; // building the exception is no work of the code under test
    switch (cur_op ? mix2((u64)cur_op->a[0] ^ (u64)cur_op->a[3], (u64)st.fn) % 6 : 0)
    {
        case 0: throw Runtime(f);
        case 1: throw Alloc(f);
        case 2: throw Range(f);
        default: throw f;
    }
}
void tick_copy()
{
    if (st.depth > 0 && ++st.n_copy == (u64)st.fn && st.fk == F_COPY)
    {
        count_fault(F_COPY);
        throw_fault(ElemFault{F_COPY});
    }
}
void tick_compare()
{
    if (st.depth > 0 && ++st.n_cmp == (u64)st.fn && st.fk == F_COMPARE)
    {
        count_fault(F_COMPARE);
        throw_fault(ElemFault{F_COMPARE});
    }
}
void tick_callback(int id)
{
    if (++st.n_cb == (u64)st.fn && st.fk == F_CALLBACK)
    {
        count_fault(F_CALLBACK);
        throw_fault(CallbackFault{id});
    }
}
void tick_source(int id)
{
    if (++st.n_src == (u64)st.fn && st.fk == F_SOURCE)
    {
        count_fault(F_SOURCE);
        throw_fault(SourceFault{id});
    }
}

// ---------------------------------------------------------------- allocation seam and ledger
struct Ledger
{
    struct E { void* p; size_t n; u64 seq; };
    E* t = nullptr;
    size_t cap = 0, used = 0;
    u64 seq = 0;
    static size_t h(void* p) { return (size_t)mix64((u64)p); }
    void grow()
    {
        size_t oc = cap;
        E* ot = t;
        cap = cap ? cap * 2 : 4096;
        t = (E*)calloc(cap, sizeof(E));
        used = 0;
        for (size_t i = 0; i < oc; ++i)
        {
            if (ot[i].p)
            {
                put(ot[i]);
            }
        }
        free(ot);
    }
    void put(E e)
    {
        if ((used + 1) * 2 > cap)
        {
            grow();
        }
        size_t i = h(e.p) & (cap - 1);
        while (t[i].p)
        {
            i = (i + 1) & (cap - 1);
        }
        t[i] = e;
        ++used;
    }
    bool take(void* p, size_t& n)
    {
        if (!cap)
        {
            return false;
        }
        size_t i = h(p) & (cap - 1);
        while (t[i].p && t[i].p != p)
        {
            i = (i + 1) & (cap - 1);
        }
        if (!t[i].p)
        {
            return false;
        }
        n = t[i].n;
        --used;
        size_t j = i;
        while (true)
        {
            j = (j + 1) & (cap - 1);
            if (!t[j].p)
            {
                break;
            }
            size_t k = h(t[j].p) & (cap - 1);
            if ((i <= j) ? (i < k && k <= j) : (i < k || k <= j))
            {
                continue;
            }
            t[i] = t[j];
            i = j;
        }
        t[i].p = nullptr;
        return true;
    }
    void clear()
    {
        if (used)
        {
            memset((void*)t, 0, cap * sizeof(E));
            used = 0;
        }
    }
};
static Ledger ledger;
void (*hook_alloc)(void*, size_t) = nullptr; // thread flavour: shadow memory
void (*hook_free)(void*, size_t) = nullptr;

static void* sim_alloc(size_t n, size_t align, bool nothrow)
{
    if (st.depth > 0)
    {
        ++st.n_alloc;
        bool bad = false;
        int kind = F_NONE;
        if ((st.fk == F_ALLOC && st.n_alloc == (u64)st.fn) || (st.fk == F_ALLOC_STICKY && st.n_alloc >= (u64)st.fn))
        {
            bad = true;
            kind = st.fk;
        }
        else if (st.fk == F_NOTHROW && nothrow)
        {
            bad = true;
            kind = F_NOTHROW;
        }
        else if (n > st.cap || st.live_bytes + n > st.cap || n > st.max_block)
        {
            bad = true;
            kind = F_CAP;
        }
        if (bad)
        {
            count_fault(kind);
            if (nothrow)
            {
                return nullptr;
            }
            throw std::bad_alloc();
        }
    }
    if (n >= 1u << 30 && align <= 16)
    {
        align = 2u << 20; // huge pages: the time goes into page faults otherwise
    }
    void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p)
    {
        if (nothrow)
        {
            return nullptr;
        }
        count_fault(F_CAP);
        throw std::bad_alloc();
    }
    if (n >= 1u << 30)
    {
        madvise(p, n, MADV_HUGEPAGE);
    }
    memset(p, 0xA5, n < 65536 ? n : 65536); // indeterminate contents are the same in every run
    if (st.depth > 0)
    {
        ledger.put({p, n, ++ledger.seq});
        ++st.live_blocks;
        st.live_bytes += n;
    }
    if (hook_alloc)
    {
        hook_alloc(p, n);
    }
    return p;
}
static void sim_free(void* p)
{
    if (!p)
    {
        return;
    }
    size_t n = 0;
    bool tracked = ledger.take(p, n);
    if (tracked)
    {
        --st.live_blocks;
        st.live_bytes -= n;
    }
    if (hook_free)
    {
        hook_free(p, n);
    }
    if (tracked)
    {
        memset(p, 0xDD, n < 4096 ? n : 4096); // library code that is not instrumented stumbles over freed nodes as well
    }
    free(p);
}
} // namespace sim

void* operator new(size_t n) { return sim::sim_alloc(n, 0, false); }
void* operator new[](size_t n) { return sim::sim_alloc(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::sim_alloc(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::sim_alloc(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return sim::sim_alloc(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return sim::sim_alloc(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim::sim_alloc(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim::sim_alloc(n, (size_t)a, true); }
void operator delete(void* p) noexcept { sim::sim_free(p); }
void operator delete[](void* p) noexcept { sim::sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim::sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim::sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::sim_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim::sim_free(p); }

// ---------------------------------------------------------------- simulated time: control-flow edges of the code under test
#ifndef SIM_THREADS
extern "C" void __sanitizer_cov_trace_pc()
{
    using namespace sim;
    if (st.depth > 0 && ++st.steps > st.step_limit)
    {
        st.steps = 0;
        fail("hang", "no termination within %llu steps of simulated time", (unsigned long long)st.step_limit);
    }
}
#endif

namespace sim
{
// ---------------------------------------------------------------- executing scripts (in a forked child)
static void reset_state(bool second_pass)
{
    bool rep = st.replaying;
    u64 blocks = st.live_blocks, bytes = st.live_bytes;
    st = State();
    st.replaying = rep;
    st.step_limit = world.step_limit;
    if (second_pass) // what the first pass left behind stays accounted for
    {
        st.live_blocks = blocks;
        st.live_bytes = bytes;
    }
    else
    {
        ledger.clear();
    }
}

// Executes script[from, to) as one segment, which starts with RESET.
static void run_segment(const Script& s, size_t from, size_t to)
{
    u64 kept = 0;
    for (int pass = 0; pass < 2; ++pass)
    {
        reset_state(pass == 1);
        for (size_t i = from; i < to; ++i)
        {
            sh->op = (int)i;
            cur_op = &s[i];
            note(s[i].code);
            if (s[i].code == 0)
            {
                world.reset(s[i]);
            }
            else
            {
                world.exec(s[i]);
                ++sh->ops;
            }
        }
        cur_op = &none_op;
        world.finish();
        disarm();
        if (st.elems != 0)
        {
            fail("element-leak", "%lld more elements constructed than destroyed at the end of the history", (long long)st.elems);
        }
        // One-time lazily initialised memory is legitimate: only a leak that repeats is reported.
        if (st.live_blocks <= kept)
        {
            break;
        }
        if (pass == 1)
        {
            fail("memory-leak", "%llu blocks still allocated after every object of the history is gone", (unsigned long long)(st.live_blocks - kept));
        }
        kept = st.live_blocks;
    }
    sh->steps += st.steps_total;
    ++sh->segments;
    sh->faulted_segments += st.faults_in_segment > 0;
    sh->digest_at_end = mix2(sh->digest_at_end, st.digest);
    if (sh->n_digests < MAX_DIGESTS)
    {
        sh->digests[sh->n_digests++] = (st.digest & ~1ull) | (st.faults_in_segment > 0);
    }
    else
    {
        ++sh->dropped_digests;
    }
}

static void run_script(const Script& s)
{
    size_t i = 0;
    while (i < s.size())
    {
        size_t j = i + 1;
        while (j < s.size() && s[j].code != 0)
        {
            ++j;
        }
        run_segment(s, i, j);
        i = j;
    }
}

u64 gen_index = 0;
static void gen_segment(u64 seed, u64 index, bool thorough, Script& out)
{
    gen_index = index;
    Rng r(mix2(mix2(seed, hash_str(world.name)), index));
    world.gen(r, out, thorough);
}

static std::string describe(const Op& op)
{
    std::string d = op.code >= 0 && op.code < world.n_ops ? world.op_names[op.code] : "?";
    d += fmt("(%lld", (long long)op.a[0]);
    for (int i = 1; i < 6; ++i)
    {
        d += fmt(",%lld", (long long)op.a[i]);
    }
    d += ")";
    if (op.fk)
    {
        d += fmt(" !%s#%lld", op.fk < F_NKINDS ? fault_names[op.fk] : "?", (long long)op.fn);
    }
    return d;
}

// ---------------------------------------------------------------- parent side
struct Verdict
{
    bool viol = false, error = false;
    std::string cls, msg;
    u64 digest = 0;
    int seg = 0, op = 0;
};

static Shared* new_shared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        exit(2);
    }
    return (Shared*)p;
}

static std::string slurp_fd(int fd)
{
    std::string s;
    lseek(fd, 0, SEEK_SET);
    char b[4096];
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0 && s.size() < 65536)
    {
        s.append(b, n);
    }
    return s;
}

static int err_fd = -1;

// Runs body in a forked child and interprets how it ended.
template <class F>
static Verdict in_child(F&& body)
{
    if (err_fd < 0)
    {
        err_fd = memfd_create("simerr", 0);
    }
    if (ftruncate(err_fd, 0) != 0) {}
    lseek(err_fd, 0, SEEK_SET);
    sh->viol = 0;
    sh->cls[0] = sh->msg[0] = 0;
    sh->digest_at_end = 0;
    sh->seg = sh->op = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0)
    {
        perror("fork");
        exit(2);
    }
    if (pid == 0)
    {
        dup2(err_fd, 2);
        alarm(150);
        body();
        fflush(stdout);
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    Verdict v;
    v.digest = sh->digest_at_end;
    v.seg = sh->seg;
    v.op = sh->op;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
    {
        return v;
    }
    if (sh->viol && WIFEXITED(status) && WEXITSTATUS(status) == 3)
    {
        v.viol = true;
        v.cls = sh->cls;
        v.msg = sh->msg;
        return v;
    }
    std::string err = slurp_fd(err_fd);
    size_t p;
    v.viol = true;
    v.digest = 0;
    auto line_from = [&](size_t q) { return err.substr(q, std::min<size_t>(err.find('\n', q), q + 400) - q); };
    if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGALRM || WTERMSIG(status) == SIGKILL))
    {
        v.viol = false;
        v.error = true;
        v.msg = fmt("child ended by signal %d in segment %d op %d", WTERMSIG(status), v.seg, v.op);
    }
    else if ((p = err.find("AddressSanitizer: ")) != std::string::npos)
    {
        std::string l = line_from(p + 18);
        v.cls = "asan:" + l.substr(0, l.find(' '));
        if (v.cls == "asan:ABRT" || v.cls == "asan:SEGV")
        {
            l = l.substr(0, l.find(" on "));
        }
        v.msg = "AddressSanitizer: " + l.substr(0, l.find(" 0x"));
    }
    else if ((p = err.find("runtime error: ")) != std::string::npos)
    {
        size_t b = err.rfind('\n', p);
        v.cls = "ubsan";
        v.msg = line_from(b == std::string::npos ? 0 : b + 1);
    }
    else if ((p = err.find("Assertion '")) != std::string::npos)
    {
        size_t b = err.rfind('\n', p);
        v.cls = "library-precondition";
        v.msg = line_from(b == std::string::npos ? 0 : b + 1);
    }
    else if ((p = err.find("terminate called")) != std::string::npos)
    {
        v.cls = "terminate";
        v.msg = line_from(p);
    }
    else if (WIFSIGNALED(status))
    {
        v.cls = fmt("signal:%d", WTERMSIG(status));
        v.msg = "killed: " + err.substr(0, 300);
    }
    else
    {
        v.cls = fmt("exit:%d", WEXITSTATUS(status));
        v.msg = err.substr(0, 300);
    }
    return v;
}

static Verdict execute(const Script& s)
{
    return in_child([&] { st.replaying = true; run_script(s); });
}

// how a stray access ends depends on what happens to lie there
static std::string family(const std::string& cls)
{
    return cls.starts_with("asan:") || cls.starts_with("signal:") ? "crash" : cls;
}
static bool same(const Verdict& v, const std::string& cls) { return v.viol && family(v.cls) == family(cls); }

static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static Script minimise(Script s, const std::string& cls, int budget, int& used)
{
    used = 0;
    const double deadline = now() + 60;
    auto test = [&](const Script& c) {
        if (used >= budget || now() > deadline)
        {
            return false;
        }
        ++used;
        return same(execute(c), cls);
    };
    bool changed = true;
    while (changed && used < budget && now() < deadline)
    {
        changed = false;
        for (size_t chunk = std::max<size_t>(1, s.size() / 2); chunk >= 1; chunk /= 2)
        {
            for (size_t i = s.size(); i-- > 1;)
            {
                size_t from = i + 1 >= chunk + 1 ? i + 1 - chunk : 1;
                if (from >= s.size())
                {
                    continue;
                }
                size_t to = std::min(s.size(), from + chunk);
                Script c(s.begin(), s.begin() + from);
                c.insert(c.end(), s.begin() + to, s.end());
                if (c.size() < s.size() && !c.empty() && c[0].code == 0 && test(c))
                {
                    s = c;
                    changed = true;
                    i = std::min(i, s.size());
                }
            }
            if (chunk == 1)
            {
                break;
            }
        }
        for (size_t i = 0; i < s.size() && used < budget; ++i)
        {
            if (s[i].fk)
            {
                Script c = s;
                c[i].fk = 0;
                c[i].fn = 0;
                if (test(c))
                {
                    s = c;
                    changed = true;
                }
                else
                {
                    for (i64 n : {(i64)1, s[i].fn / 2, s[i].fn - 1})
                    {
                        if (n >= 1 && n < s[i].fn)
                        {
                            c = s;
                            c[i].fn = n;
                            if (test(c))
                            {
                                s = c;
                                changed = true;
                                break;
                            }
                        }
                    }
                }
            }
            for (int k = 0; k < 6; ++k)
            {
                for (i64 n : {(i64)0, (i64)1, s[i].a[k] / 2, s[i].a[k] - 1})
                {
                    if (s[i].a[k] > n && n >= 0)
                    {
                        Script c = s;
                        c[i].a[k] = n;
                        if (test(c))
                        {
                            s = c;
                            changed = true;
                            break;
                        }
                    }
                }
            }
        }
    }
    return s;
}

static void write_replay(const std::string& path, const std::string& prop, u64 seed, u64 batch, const Verdict& v, const Script& s, const std::string& how)
{
    FILE* f = fopen(path.c_str(), "w");
    if (!f)
    {
        perror(path.c_str());
        exit(2);
    }
    fprintf(f, "# replay of a violation: run  python3 check.py --replay %s\n", path.c_str());
    fprintf(f, "property %s\nworld %s\nseed %llu\nbatch %llu\nclass %s\ndigest %llu\n", prop.c_str(), world.name, (unsigned long long)seed, (unsigned long long)batch, v.cls.c_str(), (unsigned long long)v.digest);
    std::string m = v.msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    fprintf(f, "message %s\nminimised %s\n", m.c_str(), how.c_str());
    for (auto& op : s)
    {
        fprintf(f, "op %d", op.code);
        for (i64 a : op.a)
        {
            fprintf(f, " %lld", (long long)a);
        }
        fprintf(f, " %d %lld # %s\n", op.fk, (long long)op.fn, describe(op).c_str());
    }
    fclose(f);
}

static bool read_replay(const char* path, Script& s, std::string& cls, u64& digest)
{
    FILE* f = fopen(path, "r");
    if (!f)
    {
        return false;
    }
    char line[8192];
    while (fgets(line, sizeof line, f))
    {
        char c[128];
        unsigned long long d;
        if (sscanf(line, "class %127s", c) == 1)
        {
            cls = c;
        }
        else if (sscanf(line, "digest %llu", &d) == 1)
        {
            digest = d;
        }
        else if (!strncmp(line, "op ", 3))
        {
            Op op;
            long long a[6], fn;
            int fk, code;
            if (sscanf(line, "op %d %lld %lld %lld %lld %lld %lld %d %lld", &code, a, a + 1, a + 2, a + 3, a + 4, a + 5, &fk, &fn) == 9)
            {
                op.code = code;
                for (int i = 0; i < 6; ++i)
                {
                    op.a[i] = a[i];
                }
                op.fk = fk;
                op.fn = fn;
                s.push_back(op);
            }
        }
    }
    fclose(f);
    return !s.empty();
}

struct Control
{
    volatile u64 first_bad; // lowest violating batch so far
    volatile u64 done_batches;
    volatile int error;
    char error_msg[512];
    struct { volatile int used; u64 batch; int seg, op; char cls[64]; } bad[64];
};

static std::string json_str(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
        {
            r += c;
        }
    }
    return r + "\"";
}

static int run_fresh(const char* self, const std::string& path, std::string& out)
{
    fflush(stdout);
    int pfd[2];
    if (pipe(pfd))
    {
        return -1;
    }
    pid_t pid = fork();
    if (pid == 0)
    {
        dup2(pfd[1], 1);
        close(pfd[0]);
        execl(self, self, "replay", path.c_str(), (char*)nullptr);
        _exit(99);
    }
    close(pfd[1]);
    char b[4096];
    ssize_t n;
    while ((n = read(pfd[0], b, sizeof b)) > 0)
    {
        out.append(b, n);
    }
    close(pfd[0]);
    int status;
    waitpid(pid, &status, 0);
    return WIFEXITED(status) ? WEXITSTATUS(status) : -1;
}

static int cmd_replay(const char* path)
{
    Script s;
    std::string cls;
    u64 digest = 0;
    if (!read_replay(path, s, cls, digest))
    {
        fprintf(stderr, "cannot read %s\n", path);
        return 2;
    }
    Verdict v = execute(s);
    printf("REPLAY class=%s digest=%llu op=%d\n%s\n", v.viol ? v.cls.c_str() : v.error ? "error" : "none", (unsigned long long)v.digest, v.op, v.msg.c_str());
    if (v.viol && (size_t)v.op < s.size())
    {
        printf("at op %d: %s\n", v.op, describe(s[v.op]).c_str());
    }
    return same(v, cls) && v.digest == digest ? 1 : 0;
}

// runs per process: with threads, lazily initialised state of the library has to be fresh often
#ifdef SIM_THREADS
static u64 K = 1;
#else
static u64 K = 40;
#endif

static int cmd_digest(u64 seed, u64 batches, bool thorough)
{
    // one line per batch: for determinism self-tests
    for (u64 b = 0; b < batches; ++b)
    {
        Verdict v = in_child([&] {
            for (u64 k = 0; k < K; ++k)
            {
                Script s;
                sh->seg = (int)k;
                gen_segment(seed, b * K + k, thorough, s);
                run_script(s);
            }
        });
        printf("%llu %llu %s\n", (unsigned long long)b, (unsigned long long)v.digest, v.viol ? v.cls.c_str() : v.error ? "error" : "ok");
    }
    return 0;
}

static int cmd_run(int argc, char** argv)
{
    std::string prop = "?", out, dir = ".";
    u64 seed = 1;
    int jobs = 8, segments = 0;
    double limit = 40;
    bool thorough = false;
    for (int i = 2; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") prop = v;
        else if (k == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--jobs") jobs = atoi(v.c_str());
        else if (k == "--segments") segments = atoi(v.c_str());
        else if (k == "--time") limit = atof(v.c_str());
        else if (k == "--tier") thorough = v == "thorough";
        else if (k == "--out") out = v;
        else if (k == "--dir") dir = v;
    }
    if (!segments)
    {
        segments = thorough ? world.thorough_segments : world.quick_segments;
    }
    jobs = std::max(1, std::min(jobs, 64));
    u64 batches = (segments + K - 1) / K;
    double t0 = now();
    Control* ctl = (Control*)mmap(nullptr, sizeof(Control), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ctl->first_bad = ~0ull;
    std::vector<Shared*> shs;
    std::vector<pid_t> pids;
    for (int w = 0; w < jobs; ++w)
    {
        shs.push_back(new_shared());
    }
    for (int w = 0; w < jobs; ++w)
    {
        pid_t pid = fork();
        if (pid == 0)
        {
            sh = shs[w];
            for (u64 b = w; b < batches; b += jobs)
            {
                if (b > ctl->first_bad || ctl->error || now() - t0 > limit)
                {
                    break;
                }
                Verdict v = in_child([&] {
                    for (u64 k = 0; k < K; ++k)
                    {
                        Script s;
                        sh->seg = (int)k;
                        gen_segment(seed, b * K + k, thorough, s);
                        run_script(s);
                    }
                });
                __atomic_fetch_add(&ctl->done_batches, 1, __ATOMIC_SEQ_CST);
                if (v.error)
                {
                    snprintf(ctl->error_msg, sizeof ctl->error_msg, "batch %llu: %s", (unsigned long long)b, v.msg.c_str());
                    ctl->error = 1;
                    break;
                }
                if (v.viol)
                {
                    auto& bad = ctl->bad[w];
                    bad.batch = b;
                    bad.seg = v.seg;
                    bad.op = v.op;
                    snprintf(bad.cls, sizeof bad.cls, "%s", v.cls.c_str());
                    bad.used = 1;
                    u64 cur = ctl->first_bad;
                    while (b < cur && !__atomic_compare_exchange_n(&ctl->first_bad, &cur, b, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
                    break;
                }
            }
            _exit(0);
        }
        pids.push_back(pid);
    }
    bool worker_died = false;
    for (pid_t p : pids)
    {
        int status;
        waitpid(p, &status, 0);
        worker_died |= !WIFEXITED(status) || WEXITSTATUS(status) != 0;
    }
    double explored = now() - t0;
    sh = new_shared();
    if (worker_died)
    {
        snprintf(ctl->error_msg, sizeof ctl->error_msg, "worker process died");
        ctl->error = 1;
    }

    // ---- totals
    u64 tot_seg = 0, tot_ops = 0, tot_steps = 0, tot_fseg = 0, fired[F_NKINDS] = {}, dropped = 0;
    std::map<std::string, u64> probes;
    std::unordered_set<u64> distinct, nontrivial;
    for (auto* s : shs)
    {
        tot_seg += s->segments;
        tot_ops += s->ops;
        tot_steps += s->steps;
        tot_fseg += s->faulted_segments;
        dropped += s->dropped_digests;
        for (int i = 0; i < F_NKINDS; ++i)
        {
            fired[i] += s->fired[i];
        }
        for (int i = 0; i < s->n_probes; ++i)
        {
            probes[s->probes[i].name] += s->probes[i].n;
        }
        for (u64 i = 0; i < s->n_digests; ++i)
        {
            distinct.insert(s->digests[i]);
            if (s->digests[i] & 1)
            {
                nontrivial.insert(s->digests[i]);
            }
        }
    }

    // ---- violation: minimise, write, re-verify
    std::string viol_json = "null";
    int rc = 0;
    std::string error = ctl->error ? ctl->error_msg : "";
    if (ctl->first_bad != ~0ull)
    {
        u64 b = ctl->first_bad;
        int w = b % jobs;
        auto& bad = ctl->bad[w];
        std::string cls = bad.cls;
        Script seg, best;
        gen_segment(seed, b * K + bad.seg, thorough, seg);
        if (Verdict v = execute(seg); v.viol)
        {
            best = seg;
            cls = v.cls;
        }
        else
        {
            // depends on earlier segments of the same process (lazily initialised state)
            for (int k = 0; k <= bad.seg; ++k)
            {
                gen_segment(seed, b * K + k, thorough, best);
            }
            if (Verdict v = execute(best); v.viol)
            {
                cls = v.cls;
            }
            else
            {
                best.clear();
            }
        }
        if (best.empty())
        {
            error = fmt("violation of class %s in batch %llu segment %d did not reproduce", cls.c_str(), (unsigned long long)b, bad.seg);
        }
        else
        {
            size_t before = best.size();
            int used = 0;
            Script small = minimise(best, cls, 500, used);
            Verdict v1 = execute(small), v2 = execute(small);
            std::string path = dir + "/" + prop + ".replay";
            bool good = same(v1, cls) && same(v2, cls) && v1.digest == v2.digest;
            if (!good)
            {
                small = best;
                v1 = execute(small);
                v2 = execute(small);
                good = same(v1, cls) && same(v2, cls) && v1.digest == v2.digest;
            }
            if (good)
            {
                char self[4096];
                ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
                self[n > 0 ? n : 0] = 0;
                std::string o;
                auto confirm = [&] {
                    write_replay(path, prop, seed, b, v1, small, fmt("from %zu to %zu operations in %d re-executions", before, small.size(), used));
                    bool ok = true;
                    for (int i = 0; i < 2 && ok; ++i)
                    {
                        o.clear();
                        ok = run_fresh(self, path, o) == 1;
                    }
                    return ok;
                };
                good = confirm();
                for (int i = 0; i < 3 && !good; ++i)
                {
                    // after a stray access another process may fail in another way: what a fresh process does counts
                    if (i == 2)
                    {
                        small = best;
                    }
                    char c[64];
                    unsigned long long d;
                    if (sscanf(o.c_str(), "REPLAY class=%63s digest=%llu", c, &d) == 2 && strcmp(c, "none") && strcmp(c, "error"))
                    {
                        v1.cls = c;
                        v1.digest = d;
                    }
                    good = confirm();
                }
                if (!good)
                {
                    error = "replay in a fresh process did not reproduce: " + o;
                }
            }
            else
            {
                error = "minimised script does not fail the same way twice";
            }
            if (good)
            {
                printf("violation class %s: %s\n", v1.cls.c_str(), v1.msg.c_str());
                for (auto& op : small)
                {
                    printf("    %s\n", describe(op).c_str());
                }
                viol_json = "{\"class\": " + json_str(v1.cls) + ", \"message\": " + json_str(v1.msg) + ", \"replay\": " + json_str(path) + fmt(", \"operations\": %zu}", small.size());
                rc = 1;
            }
        }
    }
    if (rc == 0 && !error.empty())
    {
        fprintf(stderr, "ERROR: %s\n", error.c_str());
        rc = 2;
    }

    // ---- samples: two generated segments, written out
    std::string samples = "[";
    for (int k = 0; k < 3; ++k)
    {
        Script s;
        gen_segment(seed, k * 7 + 1, thorough, s);
        std::string t;
        for (size_t i = 0; i < s.size() && i < 25; ++i)
        {
            t += (i ? "; " : "") + describe(s[i]);
        }
        samples += (k ? ", " : "") + json_str(t);
    }
    samples += "]";

    if (!out.empty())
    {
        FILE* f = fopen(out.c_str(), "w");
        if (!f)
        {
            perror(out.c_str());
            return 2;
        }
        fprintf(f, "{\"world\": %s, \"segments\": %llu, \"planned_segments\": %llu, \"operations\": %llu, \"steps\": %llu, \"faulted_segments\": %llu,\n", json_str(world.name).c_str(), (unsigned long long)tot_seg, (unsigned long long)(batches * K), (unsigned long long)tot_ops, (unsigned long long)tot_steps, (unsigned long long)tot_fseg);
        fprintf(f, " \"distinct\": %zu, \"distinct_nontrivial\": %zu, \"digests_dropped\": %llu, \"explore_s\": %.3f,\n", distinct.size(), nontrivial.size(), (unsigned long long)dropped, explored);
        fprintf(f, " \"measure\": %s, \"real\": %s, \"stub\": %s,\n \"faults\": {", json_str(world.measure).c_str(), json_str(world.real).c_str(), json_str(world.stub).c_str());
        bool first = true;
        for (int i = 1; i < F_NKINDS; ++i)
        {
            if (fired[i])
            {
                fprintf(f, "%s%s: %llu", first ? "" : ", ", json_str(fault_names[i]).c_str(), (unsigned long long)fired[i]);
                first = false;
            }
        }
        fprintf(f, "},\n \"probes\": {");
        first = true;
        for (auto& p : probes)
        {
            fprintf(f, "%s%s: %llu", first ? "" : ", ", json_str(p.first).c_str(), (unsigned long long)p.second);
            first = false;
        }
        fprintf(f, "},\n \"samples\": %s,\n \"violation\": %s, \"error\": %s}\n", samples.c_str(), viol_json.c_str(), json_str(error).c_str());
        fclose(f);
    }
    return rc;
}
} // namespace sim

int main(int argc, char** argv)
{
    using namespace sim;
    // same addresses in every process, as far as the sandbox allows
    if (!getenv("SIM_NOASLR"))
    {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1)
        {
            char self[4096];
            ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
            if (n > 0)
            {
                self[n] = 0;
                execv(self, argv);
            }
        }
    }
    if (argc >= 2 && std::string(argv[1]) == "run")
    {
        return cmd_run(argc, argv);
    }
    sh = new_shared();
    if (argc >= 3 && std::string(argv[1]) == "replay")
    {
        return cmd_replay(argv[2]);
    }
    if (argc >= 4 && std::string(argv[1]) == "digest")
    {
        return cmd_digest(strtoull(argv[2], nullptr, 10), strtoull(argv[3], nullptr, 10), argc > 4);
    }
    fprintf(stderr, "usage: run ... | replay FILE | digest SEED BATCHES\n");
    return 2;
}
