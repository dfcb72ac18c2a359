// World: Int::random with a simulated entropy device, failing allocations and failing devices (C03).
#include "rt.hpp"
#include <algorithm>
#include <memory>
#include <pyincpp.hpp>
#include <random>
#include <set>
#include <sstream>

using namespace sim;
using pyincpp::Int;

enum Code { op_RESET, op_entropy, op_random, op_random_default, op_zero, op_reject, op_repeat, op_bit, op_distinct, op_spread, op_top, op_length, op_long, op_huge, op_use, N_OPS };
static const char* const names[] = {"RESET", "entropy", "random", "random_default", "zero", "reject", "repeat", "bit_flip", "distinct", "spread", "top_digit", "length_spread", "long", "huge", "use"};

// ---------------------------------------------------------------- simulated entropy device
struct Device
{
    enum Mode { RANDOM, ZERO, ONES, COUNTER, ALTERNATE, LOW, STUCK, N_MODES };
    int mode = 0;
    u64 seed = 0, draws = 0, opened = 0, closed = 0;
    i64 flip = -1;
    unsigned word(u64 i) const
    {
        unsigned w;
        switch (mode)
        {
            case ZERO: w = 0; break;
            case ONES: w = ~0u; break;
            case COUNTER: w = (unsigned)(seed + i); break;
            case ALTERNATE: w = i % 2 ? 0xaaaaaaaa : 0x55555555; break;
            case LOW: w = (unsigned)(mix2(seed, i) & 3); break;
            case STUCK: w = (unsigned)mix64(seed); break;
            default: w = (unsigned)mix2(seed, i); break;
        }
        return flip >= 0 ? w ^ (1u << (flip % 32)) : w;
    }
};
static Device dev;
static u64 dev_events; // since armed

static void device_event()
{
    if (st.fk == F_DEVICE && ++dev_events == (u64)st.fn)
    {
        st.fired = true;
        count_fault(F_DEVICE);
        throw std::runtime_error("sim: entropy device failed");
    }
}

void std::random_device::_M_init(const std::string&)
{
    if (st.depth)
    {
        device_event();
    }
    ++dev.opened;
}
void std::random_device::_M_fini() { ++dev.closed; }
std::random_device::result_type std::random_device::_M_getval()
{
    if (st.depth)
    {
        device_event();
    }
    if (dev.mode != Device::RANDOM)
    {
        bool f = st.fired;
        count_fault(F_ENTROPY);
        st.fired = f;
    }
    return dev.word(dev.draws++);
}
// real devices answer anything here, most of them 0, whatever the words are worth
double std::random_device::_M_getentropy() const noexcept
{
    static const double answer[] = {32, 0, 0.125, 31.5};
    return answer[mix64(dev.seed ^ 0xe27) % 4];
}

// ---------------------------------------------------------------- world
struct Seg
{
    int calls = 0;

    explicit Seg(const Op& op)
    {
        dev = Device();
        entropy(op.a[0], op.a[1]);
    }
    void entropy(i64 mode, i64 seed)
    {
        dev.mode = (int)((u64)mode % Device::N_MODES);
        dev.seed = (u64)seed;
        dev.flip = -1;
    }
    static std::string digits(const Int& v)
    {
        std::string s;
        must("printing", [&] {
            std::ostringstream o;
            o << v;
            Out out;
            s = o.str(); });
        return s;
    }
    // n: requested digits, -1: default
    static std::string wellformed(const Int& v, i64 n)
    {
        std::string s = digits(v);
        size_t want = n == 0 ? 1 : (size_t)n;
        bool ok = !s.empty();
        for (char c : s)
        {
            ok = ok && c >= '0' && c <= '9';
        }
        ok = ok && (n < 0 ? s.size() <= 4300 : s.size() == want) && (n == 0 ? s == "0" : n < 0 ? (s == "0" || s[0] != '0') : s[0] != '0');
        if (!ok)
        {
            fail("malformed", "Int::random(%lld) gives %s (%zu characters)", (long long)n, s.substr(0, 200).c_str(), s.size());
        }
        bool same = false, q[3] = {};
        int d = 0;
        must("examination", [&] {
            same = v == Int(s.c_str());
            d = v.digits();
            q[0] = v.is_zero();
            q[1] = v.is_positive();
            q[2] = v.is_negative(); });
        bool zero = s == "0";
        if (!same || d != (zero ? 0 : (int)s.size()) || q[0] != zero || q[1] == zero || q[2])
        {
            fail("malformed", "Int::random(%lld) prints %s, but equal to that = %d, digits() = %d, zero/positive/negative = %d%d%d", (long long)n, s.substr(0, 200).c_str(), same, d, q[0], q[1], q[2]);
        }
        return s;
    }
    std::string draw(i64 n) { return wellformed(*get(n), n); }
    std::unique_ptr<Int> get(i64 n)
    {
        std::unique_ptr<Int> r;
        bool failed_once = false;
        u64 before = 0;
        while (true)
        {
            dev_events = 0;
            before = dev.draws;
            Outcome o;
            if (cur_op->fk == F_DEVICE)
            {
                arm(failed_once ? F_NONE : F_DEVICE, cur_op->fn);
                o = sut_armed([&] { r.reset(new Int(n == -1 ? Int::random() : Int::random((int)n))); });
                bool fired = st.fired;
                disarm();
                if (fired)
                {
                    ++st.faults_in_segment;
                    failed_once = true;
                    if (o.k == OK)
                    {
                        fail("fault-swallowed", "Int::random(%lld) succeeded although the entropy device failed", (long long)n);
                    }
                    balance();
                    continue;
                }
            }
            else
            {
                o = run_op([&] { before = dev.draws; r.reset(new Int(n == -1 ? Int::random() : Int::random((int)n))); }, [&](const Outcome&) { balance(); return RETRY; });
            }
            if (o.k != OK)
            {
                fail("refused-valid", "Int::random(%lld) failed: %s %s", (long long)n, kind_names[o.k], o.what.c_str());
            }
            break;
        }
        ++calls;
        if (n != 0 && dev.draws == before)
        {
            fail("no-fresh-entropy", "Int::random(%lld) did not draw from the entropy device", (long long)n);
        }
        balance();
        return r;
    }
    void balance()
    {
        if (dev.opened - dev.closed > 1)
        {
            fail("device-leak", "%llu entropy devices are open after the call", (unsigned long long)(dev.opened - dev.closed));
        }
    }
    // plain fast call for statistics
    static std::string quick(int n)
    {
        std::string s;
        Outcome o = sut_clean([&] {
            Int v = n < 0 ? Int::random() : Int::random(n);
            std::ostringstream os;
            os << v;
            Out out;
            s = os.str(); });
        if (o.k != OK)
        {
            fail("refused-valid", "Int::random(%d) failed: %s", n, o.what.c_str());
        }
        return s;
    }
    static void chi(const std::vector<u64>& c, const char* what, double limit)
    {
        double total = 0, x = 0;
        for (u64 v : c)
        {
            total += (double)v;
        }
        double e = total / (double)c.size();
        std::string all;
        for (u64 v : c)
        {
            x += ((double)v - e) * ((double)v - e) / e;
            if (c.size() <= 20)
            {
                all += fmt(" %llu", (unsigned long long)v);
            }
        }
        if (x > limit)
        {
            fail("not-uniform", "%s are not spread uniformly: chi-square %.1f over %d classes (limit %.0f), counts%s", what, x, (int)c.size(), limit, all.c_str());
        }
    }

    void exec(const Op& op)
    {
        Rng r(mix2(op.a[1], op.a[2]));
        std::string s;
        switch (op.code)
        {
            case op_entropy: entropy(op.a[0], op.a[1]); break;
            case op_random: s = draw(op.a[0] % 3 ? r.range(1, 40) : r.range(1, 1200)); break;
            case op_random_default: s = draw(-1); break;
            case op_zero: s = draw(0); break;
            case op_reject: {
                static const int bad[] = {-2, -3, -100, INT_MIN, INT_MIN + 1};
                int n = op.a[0] % 3 ? bad[(u64)op.a[1] % 5] : (int)r.range(-100000, -2);
                Outcome o = run_op([&] { Int::random(n); }, [&](const Outcome&) { return RETRY; });
                if (o.k != RTE)
                {
                    fail("not-refused", "Int::random(%d) was accepted", n);
                }
                break;
            }
            case op_repeat: {
                // two calls in a row see different entropy
                int save = dev.mode;
                dev.mode = Device::RANDOM;
                int n = (int)r.range(25, 80);
                std::string a = draw(n), b = draw(n);
                dev.mode = save;
                if (a == b)
                {
                    fail("no-fresh-entropy", "two calls of Int::random(%d) with different entropy both give %s", n, a.c_str());
                }
                s = a;
                break;
            }
            case op_bit: {
                // one bit of the entropy makes a difference
                int save = dev.mode;
                dev.mode = Device::STUCK;
                int n = (int)r.range(30, 80);
                u64 at = dev.draws;
                std::string a = draw(n);
                dev.draws = at;
                dev.flip = (i64)r.below(32);
                std::string b = draw(n);
                if (a == b)
                {
                    fail("entropy-ignored", "Int::random(%d) gives %s whatever bit %lld of the entropy is", n, a.c_str(), (long long)dev.flip);
                }
                dev.flip = -1;
                dev.mode = save;
                break;
            }
            case op_distinct: {
                int save = dev.mode;
                dev.mode = Device::COUNTER; // no word twice
                std::set<std::string> seen;
                for (int i = 0; i < 1500; ++i)
                {
                    s = quick(30);
                    if (!seen.insert(s).second)
                    {
                        fail("entropy-ignored", "Int::random(30) gives %s for different entropy", s.c_str());
                    }
                }
                dev.mode = save;
                break;
            }
            case op_spread: {
                int save = dev.mode;
                dev.mode = Device::RANDOM;
                std::vector<u64> any(10), pair(100), last(10), mid(10);
                for (int i = 0; i < 500; ++i)
                {
                    s = quick(i % 2 ? 60 : 150);
                    for (size_t k = 1; k < s.size(); ++k)
                    {
                        ++any[s[k] - '0'];
                        if (k % 2 && k + 1 < s.size())
                        {
                            ++pair[(s[k] - '0') * 10 + s[k + 1] - '0'];
                        }
                    }
                    ++last[s.back() - '0'];
                    ++mid[s[1] - '0'];
                }
                // long numbers, place by place: every place is as likely to hold any digit, whatever its neighbours hold
                const int longest = 4200, rounds = 40;
                std::vector<std::string> tall;
                for (int i = 0; i < rounds; ++i)
                {
                    tall.push_back(quick(longest));
                }
                for (int place = 1; place < longest; ++place)
                {
                    static const size_t gaps[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 18, 19, 32, 64, 100, 128, 156, 227, 256, 312, 397, 512, 623, 624, 625, 1000, 1024, 1248, 2048, 2100, 4096};
                    for (size_t gap : gaps)
                    {
                        int same = 0;
                        for (auto& t : tall)
                        {
                            same += place + (int)gap < longest && t[place] == t[place + gap];
                        }
                        // 40 fair draws agree 24 times or more with probability 2e-14
                        if (same >= 24)
                        {
                            fail("not-uniform", "digits %d and %d of %d-digit numbers agree in %d of %d numbers", place, place + (int)gap, longest, same, rounds);
                        }
                    }
                    int of[10] = {};
                    for (auto& t : tall)
                    {
                        ++of[t[place] - '0'];
                    }
                    for (int d = 0; d < 10; ++d)
                    {
                        if (of[d] >= 24)
                        {
                            fail("not-uniform", "digit %d of %d-digit numbers is %d in %d of %d numbers", place, longest, d, of[d], rounds);
                        }
                    }
                }
                dev.mode = save;
                chi(any, "digits after the first", 75);
                chi(pair, "pairs of neighbouring digits", 230);
                chi(last, "last digits", 75);
                chi(mid, "second digits", 75);
                break;
            }
            case op_top: {
                int save = dev.mode;
                dev.mode = Device::RANDOM;
                std::vector<u64> top(9), low(10), top1(9);
                for (int i = 0; i < 70000; ++i)
                {
                    s = quick(i % 4 ? 2 : 1);
                    if (s.size() != (i % 4 ? 2u : 1u) || s[0] == '0')
                    {
                        fail("malformed", "Int::random(%d) gives %s", i % 4 ? 2 : 1, s.c_str());
                    }
                    ++top[s[0] - '1'];
                    if (i % 4)
                    {
                        ++low[s[1] - '0'];
                    }
                    else
                    {
                        ++top1[s[0] - '1'];
                    }
                }
                dev.mode = save;
                chi(top, "first digits", 72);
                chi(top1, "one-digit numbers", 72);
                chi(low, "last digits of two-digit numbers", 75);
                break;
            }
            case op_length: {
                int save = dev.mode;
                dev.mode = Device::RANDOM;
                std::vector<u64> len(17);
                size_t longest = 0;
                for (int i = 0; i < 600; ++i)
                {
                    s = quick(-1);
                    size_t n = s == "0" ? 0 : s.size();
                    if (n > 4300)
                    {
                        fail("malformed", "Int::random() has %zu digits", n);
                    }
                    longest = std::max(longest, n);
                    ++len[n * 17 / 4301];
                }
                dev.mode = save;
                chi(len, "lengths of Int::random()", 100);
                break;
            }
            case op_long: {
                // a long number does not repeat itself
                int save = dev.mode;
                dev.mode = Device::RANDOM;
                const int n = (int)(r.chance(60) ? r.range(1200, 20000) : r.range(20000, 75000));
                std::unique_ptr<Int> v = get(n);
                s = wellformed(*v, n);
                std::set<u64> seen;
                for (size_t i = 0, k = s.size(); i + 18 <= k; ++i)
                {
                    u64 w = 0;
                    for (int j = 0; j < 18; ++j)
                    {
                        w = w * 10 + (s[i + j] - '0');
                    }
                    if (!seen.insert(w).second)
                    {
                        fail("not-uniform", "Int::random(%d) repeats its digits from place %zu on", n, i);
                    }
                }
                dev.mode = save;
                break;
            }
            case op_huge: {
                // more digits than memory: refused, and the next call works
                arm(F_CAP, 16 + (i64)r.below(64));
                std::unique_ptr<Int> v;
                int n = (int)r.range(200000, 2000000000);
                Outcome o = sut_armed([&] { v.reset(new Int(Int::random(n))); });
                disarm();
                ++st.faults_in_segment;
                if (o.k == OK || (o.k != BADALLOC && o.k != LENGTH && o.k != RTE))
                {
                    fail("fault-swallowed", "Int::random(%d) with too little memory: %s %s", n, kind_names[o.k], o.what.c_str());
                }
                balance();
                s = draw(r.range(1, 20));
                break;
            }
            case op_use: {
                // the number is a number like any other
                int n = (int)r.range(1, 60);
                std::unique_ptr<Int> v = get(n);
                s = wellformed(*v, n);
                bool ok = false;
                must("arithmetic", [&] {
                    Int p(s.c_str());
                    ok = *v + 1 == p + 1 && (*v - p).is_zero() && *v * 7 == p * 7 && *v / 3 == p / 3 && !(*v < p) && (*v - 1).digits() == (p - 1).digits() && v->is_even() == p.is_even(); });
                if (!ok)
                {
                    fail("malformed", "Int::random(%d) prints %s but does not compute like it", n, s.c_str());
                }
                break;
            }
        }
        note(hash_str(s));
        note(dev.draws);
    }
};

static std::unique_ptr<Seg> seg;
static void do_reset(const Op& op) { seg.reset(new Seg(op)); }
static void do_exec(const Op& op)
{
    if (seg)
    {
        seg->exec(op);
    }
}
static void do_finish() { seg.reset(); }

static void gen(Rng& r, Script& out, bool)
{
    Op reset;
    reset.a[0] = r.chance(50) ? 0 : (i64)r.below(Device::N_MODES);
    reset.a[1] = (i64)r.below(1ull << 40);
    out.push_back(reset);
    // rare statistical histories
    int heavy = (int)r.below(400);
    if (heavy < 9)
    {
        Op op;
        op.code = heavy == 0 ? op_top : heavy < 3 ? op_length : heavy < 5 ? op_spread : heavy < 7 ? op_distinct : op_long;
        op.a[1] = (i64)r.below(1 << 20);
        out.push_back(op);
        return;
    }
    GenFaults gf;
    static const int all[] = {F_ALLOC, F_ALLOC_STICKY, F_ALLOC_SWEEP, F_DEVICE};
    if (r.chance(80))
    {
        gf.rate = (int)r.range(10, 60);
        for (int k : all)
        {
            if (r.chance(60))
            {
                gf.kinds.push_back(k);
            }
        }
        gf.maxbits = (int)r.range(1, 3);
    }
    static const int ops[] = {op_entropy, op_entropy, op_random, op_random, op_random, op_random, op_random_default, op_zero, op_reject, op_repeat, op_bit, op_huge, op_use, op_use};
    int len = (int)r.range(3, 14);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = ops[r.below(14)];
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 20);
        }
        gf.apply(r, op);
        if (op.fk == F_DEVICE)
        {
            op.fn = r.range(1, 3);
        }
        out.push_back(op);
    }
}

namespace sim
{
World world = {"random", names, N_OPS, "digest of (operation, outcome, injected fault, entropy words drawn, number returned) over a whole history",
               "pyincpp::Int::random, std::mt19937 and std::uniform_int_distribution", "entropy device (std::random_device: random, constant, counting, alternating, stuck and failing words), allocator",
               gen, do_reset, do_exec, do_finish, 400000000, 24000, 20000000};
}
