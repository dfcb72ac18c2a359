// Deterministic simulation runtime: seams, fault injection, ledger, script execution.
// Everything a run does is a pure function of its script (a list of Op); a script is a pure
// function of one integer seed.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace sim
{
typedef int64_t i64;
typedef uint64_t u64;

// ---------------------------------------------------------------- randomness
inline u64 mix64(u64 z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline u64 mix2(u64 a, u64 b) { return mix64(mix64(a) ^ (b * 0xff51afd7ed558ccdull + 0x632be59bd9b4e019ull)); }

struct Rng
{
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next()
    {
        s += 0x9e3779b97f4a7c15ull;
        u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo) + 1); }
    bool chance(int percent) { return (int)below(100) < percent; }
    // log-uniform in [1, 2^maxbits]
    i64 logu(int maxbits)
    {
        int b = (int)below(maxbits + 1);
        return b == 0 ? 1 : (i64)(1ull << b) - (i64)below(1ull << (b - 1));
    }
};

// ---------------------------------------------------------------- scripts
enum Fault : int
{
    F_NONE = 0,
    F_ALLOC,        // the fn-th allocation of the operation fails (once)
    F_ALLOC_STICKY, // the fn-th and all later allocations of the operation fail
    F_ALLOC_SWEEP,  // the operation is retried with the 1st, 2nd, 3rd ... allocation failing, until it succeeds
    F_NOTHROW,      // every no-throw (scratch) allocation is refused
    F_COPY,         // the fn-th element copy throws
    F_COMPARE,      // the fn-th element comparison throws
    F_CALLBACK,     // the fn-th user callback call throws
    F_SOURCE,       // the fn-th step of an input range throws
    F_CAP,          // simulated heap limit (fn * 1 KiB above what is in use)
    F_READ_EOF,     // stream ends early
    F_READ_ERR,     // stream device throws on read
    F_WRITE_SHORT,  // device accepts no more bytes
    F_WRITE_ERR,    // device throws on write
    F_FLUSH,        // flush fails
    F_CRASH,        // power loss, only durable bytes survive
    F_TORN,         // sector written partly
    F_LOST,         // sector not written
    F_FLIP,         // stored byte damaged
    F_ENTROPY,      // pathological entropy words
    F_DEVICE,       // entropy device fails
    F_PREEMPT,      // thread switched away from
    F_CHUNK,        // read delivered in small chunks
    F_NKINDS
};
extern const char* const fault_names[F_NKINDS];

struct Op
{
    int code = 0;
    i64 a[6] = {0, 0, 0, 0, 0, 0};
    int fk = 0;
    i64 fn = 0;
};
typedef std::vector<Op> Script;

struct World
{
    const char* name;
    const char* const* op_names; // indexed by code; code 0 is RESET
    int n_ops;
    const char* measure;  // what makes two runs distinct
    const char* real;     // components running real code
    const char* stub;     // components simulated
    void (*gen)(Rng&, Script&, bool thorough);
    void (*reset)(const Op&);
    void (*exec)(const Op&);
    void (*finish)();
    u64 step_limit;
    int quick_segments, thorough_segments;
};
extern u64 gen_index; // number of the history that is being generated
extern World world; // defined by the world's translation unit

// ---------------------------------------------------------------- seams: state
struct State
{
    int depth = 0;             // > 0: inside code under test
    int fk = 0;                // armed fault
    i64 fn = 0;
    u64 n_alloc = 0, n_copy = 0, n_cmp = 0, n_cb = 0, n_src = 0; // events since armed
    bool fired = false;
    u64 steps = 0, step_limit = 0, steps_total = 0;
    u64 live_blocks = 0, live_bytes = 0; // allocations made inside code under test
    u64 cap = ~0ull;
    u64 max_block = 2000ull << 20; // larger single allocations fail
    i64 elems = 0;             // live tracked elements
    u64 digest = 0;
    u64 ops = 0, faults_in_segment = 0;
    u64 fired_by_kind[F_NKINDS] = {};
    bool replaying = false;
};
extern State st;
extern const Op* cur_op;

[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void probe(const char* name, u64 n = 1);
// a violation, unless the finding is listed under this key in known_findings.txt (SIM_KNOWN)
void known(const char* key, const char* text);
inline void note(u64 v) { st.digest = mix2(st.digest, v); }
u64 hash_str(const std::string& s);
void count_fault(int kind, u64 n = 1);

// temporarily leave the code under test (harness work inside callbacks)
struct Out
{
    int saved;
    Out() : saved(st.depth) { st.depth = 0; }
    ~Out() { st.depth = saved; }
};

struct ElemFault { int kind; };
struct CallbackFault { int id; };
struct SourceFault { int id; };
struct DeviceFault : std::exception { const char* what() const noexcept override { return "sim: device error"; } };

// An operation that changes an object returns that object, so that operations can be chained.
template <class T, class F>
void returns_self(T& x, F&& f, const char* what)
{
    if constexpr (std::is_lvalue_reference_v<decltype(f())>)
    {
        if ((const void*)&f() != (const void*)&x)
        {
            fail("returned-object", "%s does not return the object it changed", what);
        }
    }
    else
    {
        f();
        fail("returned-object", "%s does not return the object it changed, but a copy: the rest of a chain is lost", what);
    }
}
#define SELF(x, expr) sim::returns_self((x), [&]() -> decltype(auto) { return (expr); }, #expr)

enum Kind { OK, RTE, BADALLOC, ELEM, CB, SRC, DEVICE, IOS, LENGTH, OTHER };
extern const char* const kind_names[];
struct Outcome
{
    Kind k = OK;
    bool fired = false;
    std::string what;
    bool ok() const { return k == OK; }
    // ended by an injected fault
    bool faulted() const { return fired && (k == BADALLOC || k == ELEM || k == CB || k == SRC || k == DEVICE); }
};

void arm(int fk, i64 fn);
void disarm();
Kind classify(std::string& what); // inside catch(...)

// references to a callable: the functions below are not templates, which keeps the worlds quick to build
struct FRef
{
    void* o;
    void (*c)(void*);
    template <class F>
    FRef(F&& f) : o((void*)&f), c([](void* p) { (*(std::remove_reference_t<F>*)p)(); })
    {
    }
    FRef(const FRef&) = default;
    FRef(FRef&) = default;
    void operator()() const { c(o); }
};
enum Retry { RETRY, GIVE_UP };
struct VRef
{
    void* o;
    Retry (*c)(void*, const Outcome&);
    template <class F>
    VRef(F&& f) : o((void*)&f), c([](void* p, const Outcome& r) -> Retry { return (*(std::remove_reference_t<F>*)p)(r); })
    {
    }
    VRef(const VRef&) = default;
    VRef(VRef&) = default;
    Retry operator()(const Outcome& r) const { return c(o, r); }
};

// Runs f as code under test with the currently armed fault.
Outcome sut_armed(FRef f);
// Runs f as code under test without faults; any exception other than std::runtime_error is a violation.
Outcome sut_clean(FRef f);
// Runs f, an observation that must succeed.
void must(const char* what, FRef f);
// Runs one operation with the fault of the current op. After a failure caused by the injected fault,
// on_fail(outcome) verifies the state and says whether to repeat the operation. Returns the final outcome
// (OK, RTE or, when on_fail gave up, the faulted outcome).
Outcome run_op(FRef f, VRef on_fail);

// element-level fault points
void tick_copy();
void tick_compare();
void tick_callback(int id);
void tick_source(int id);

// pieces of text that mean something to some program, without line ends, put at one or both ends of a text or in it
inline void decorate(Rng& r, std::string& s)
{
    static constexpr std::string_view marks[] = {"\xef\xbb\xbf", "\xff\xfe", "\\", "\\\\", "\\n", "\\t", "\\\"", "\"", "'", "'''", "\"\"", "#", "//", "/*", "*/", ";", "--", "%", "%%", "%20", "%s", "&amp;", "$", "${x}", "{}", "{", "}", "{{", "}}", "{0}",
                                        "[", "]", "(", ")", "<", ">", "\r", "\r\r", "\t", " ", "  ", "    ", "\v", "\f", "\b", "\a", "\x1b[0m", "\x1a", "\x7f", "\x85", "\xa0", "\xc2\xa0", "\xe2\x80\xa8", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xff", "\x80",
                                        std::string_view("\0", 1), std::string_view("\0\0", 2), "0x", "0", "-", "+", "-0", "nan", "inf", "e", ".", "...", ",", ", ", ": ", "=", "|", "~", "^", "`", "@", "!", "?", "*", "_", "EOF", "NULL", "None"};
    const std::string m(marks[r.below(sizeof marks / sizeof *marks)]);
    switch (r.below(8))
    {
        case 0:
        case 1: s = m + s; break;
        case 2:
        case 3: s += m; break;
        case 4: s = m + s + m; break;
        case 5: s = m; break;
        case 6: s.insert(r.below(s.size() + 1), m); break;
        default:
            s = m + s;
            s += marks[r.below(sizeof marks / sizeof *marks)];
            break;
    }
}

struct GenFaults
{
    int rate = 0;          // percent of operations with a fault
    std::vector<int> kinds;
    int maxbits = 5;
    void apply(Rng& r, Op& op) const
    {
        if (kinds.empty() || !r.chance(rate))
        {
            return;
        }
        op.fk = kinds[r.below(kinds.size())];
        op.fn = r.logu(maxbits);
    }
};

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string show(const std::string& s, size_t max = 300); // escaped

} // namespace sim
