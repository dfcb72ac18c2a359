// World: Fraction values along histories of arithmetic, rejected requests, interrupted input and output (C23).
#include "dev.hpp"
#include <climits>
#include <cmath>
#include <cstdlib>
#include <memory>
#include <numeric>
#include <pyincpp.hpp>

using namespace sim;
using pyincpp::Fraction;

enum Code { op_RESET, op_set, op_copy, op_arith, op_assign, op_unary, op_step, op_gcd, op_reject, op_read, op_write, op_number, N_OPS };
static const char* const names[] = {"RESET", "set", "copy", "arith", "assign-op", "unary", "step", "gcd-lcm", "reject", "read", "write", "number"};

// an exact rational in lowest terms
struct Rat
{
    __int128 n = 0, d = 1;
    bool operator==(const Rat&) const = default;
    static __int128 abs(__int128 v) { return v < 0 ? -v : v; }
    static __int128 g(__int128 a, __int128 b)
    {
        a = abs(a);
        b = abs(b);
        while (b)
        {
            const __int128 t = a % b;
            a = b;
            b = t;
        }
        return a;
    }
    static Rat of(__int128 n, __int128 d)
    {
        const __int128 k = g(n, d);
        Rat r;
        r.n = n / k;
        r.d = d / k;
        if (r.d < 0)
        {
            r.n = -r.n;
            r.d = -r.d;
        }
        return r;
    }
    std::string show() const { return fmt("%lld/%lld", (long long)n, (long long)d); }
    std::string text() const { return d == 1 ? fmt("%lld", (long long)n) : show(); }
    bool fits() const { return n <= INT_MAX && n > INT_MIN && d <= INT_MAX; }
};

struct Seg
{
    static const int N = 5;
    Fraction f[N];
    Rat m[N];

    static int norm(i64 raw, i64 n) { return (int)((u64)raw % n); }

    void verify(const char* when)
    {
        for (int i = 0; i < N; ++i)
        {
            i64 n = 0, d = 0;
            must("inspection", [&] {
                n = f[i].numerator();
                d = f[i].denominator(); });
            if (d <= 0 || std::gcd(n, d) != 1)
            {
                fail("not-lowest-terms", "%s: fraction %d is %lld/%lld", when, i, (long long)n, (long long)d);
            }
            if (n != (i64)m[i].n || d != (i64)m[i].d)
            {
                fail("wrong-value", "%s: fraction %d is %lld/%lld instead of %s", when, i, (long long)n, (long long)d, m[i].show().c_str());
            }
        }
    }
    // an operation that must succeed once faults stop; the models already hold ... until then
    void go(FRef fun, int i, const Rat& want)
    {
        Outcome o = run_op(fun, [&](const Outcome&) {
            verify("after a failed operation");
            return RETRY; });
        if (!o.ok())
        {
            fail("unexpected-exception", "%s: %s", names[cur_op->code], o.what.c_str());
        }
        m[i] = want;
        verify(names[cur_op->code]);
        note(mix2((u64)want.n, (u64)want.d));
    }
    void refuse(FRef fun, const char* what)
    {
        Outcome o = run_op(fun, [&](const Outcome&) {
            verify("after a failed operation");
            return RETRY; });
        if (o.k != RTE)
        {
            fail("not-rejected", "%s ended with %s", what, kind_names[o.k]);
        }
        verify(what);
        probe("rejected");
    }
    // every product and sum of the textbook formulas fits in int
    static bool in_range(const Rat& a, const Rat& b)
    {
        const __int128 x = Rat::abs(a.n), y = Rat::abs(b.n);
        return x * b.d + y * a.d <= INT_MAX && a.d * b.d <= INT_MAX && x * y <= INT_MAX;
    }
    static bool calc(int how, const Rat& a, const Rat& b, Rat& r)
    {
        switch (how)
        {
            case 0: r = Rat::of(a.n * b.d + b.n * a.d, a.d * b.d); return true;
            case 1: r = Rat::of(a.n * b.d - b.n * a.d, a.d * b.d); return true;
            case 2: r = Rat::of(a.n * b.n, a.d * b.d); return true;
            case 3:
                if (b.n == 0)
                {
                    return false;
                }
                r = Rat::of(a.n * b.d, a.d * b.n);
                return true;
            default:
                if (b.n == 0)
                {
                    return false;
                }
                {
                    const __int128 q = (a.n * b.d) / (a.d * b.n); // truncates toward zero, like int and Int
                    r = Rat::of(a.n * b.d - q * b.n * a.d, a.d * b.d);
                }
                return true;
        }
    }
    static int number(Rng& r)
    {
        static const int edge[] = {0, 1, -1, 2, 46340, -46340, 46341, 32767, 65536, 1000003, INT_MAX, -INT_MAX, INT_MAX - 1, 1 << 30};
        switch (r.below(4))
        {
            case 0: return (int)r.range(-12, 12);
            case 1: return (int)r.range(-1000, 1000);
            case 2: return edge[r.below(14)];
            default: return (int)(r.logu(31) * (r.chance(50) ? 1 : -1) % INT_MAX);
        }
    }
    void exec(const Op& op)
    {
        Rng r(mix2(op.a[3], op.a[4]));
        const int i = norm(op.a[0], N), j = norm(op.a[1], N), k = norm(op.a[2], N), how = (int)r.below(5);
        Rat w;
        switch (op.code)
        {
            case op_set: {
                int a = number(r), b = number(r);
                if (r.chance(40))
                {
                    const int c = (int)r.range(-40, 40);
                    a = (int)r.range(-40, 40) * c;
                    b = (int)r.range(-40, 40) * c;
                }
                b = b ? b : 1;
                go([&] { f[i] = Fraction(a, b); }, i, Rat::of(a, b));
                break;
            }
            case op_copy:
                switch (how)
                {
                    case 0: go([&] { f[i] = f[j]; }, i, m[j]); break;
                    case 1: go([&] { Fraction t(f[j]); f[i] = t; }, i, m[j]); break;
                    case 2: go([&] { Fraction t(f[j]); f[i] = std::move(t); }, i, m[j]); break;
                    case 3: go([&] { Fraction t(f[j]); Fraction u(std::move(t)); f[i] = u; }, i, m[j]); break;
                    default: go([&] { f[i] = +f[j]; }, i, m[j]); break;
                }
                break;
            case op_arith:
                if (!in_range(m[j], m[k]))
                {
                    probe("out_of_range_skipped");
                    break;
                }
                if (!calc(how, m[j], m[k], w))
                {
                    refuse([&] { f[i] = how == 3 ? f[j] / f[k] : f[j] % f[k]; }, "division by zero");
                    break;
                }
                switch (how)
                {
                    case 0: go([&] { f[i] = f[j] + f[k]; }, i, w); break;
                    case 1: go([&] { f[i] = f[j] - f[k]; }, i, w); break;
                    case 2: go([&] { f[i] = f[j] * f[k]; }, i, w); break;
                    case 3: go([&] { f[i] = f[j] / f[k]; }, i, w); break;
                    default: go([&] { f[i] = f[j] % f[k]; }, i, w); break;
                }
                break;
            case op_assign:
                if (!in_range(m[i], m[j]))
                {
                    probe("out_of_range_skipped");
                    break;
                }
                if (!calc(how, m[i], m[j], w))
                {
                    refuse([&] { how == 3 ? f[i] /= f[j] : f[i] %= f[j]; }, "division by zero");
                    break;
                }
                switch (how)
                {
                    case 0: go([&] { SELF(f[i], f[i] += f[j]); }, i, w); break;
                    case 1: go([&] { SELF(f[i], f[i] -= f[j]); }, i, w); break;
                    case 2: go([&] { SELF(f[i], f[i] *= f[j]); }, i, w); break;
                    case 3: go([&] { SELF(f[i], f[i] /= f[j]); }, i, w); break;
                    default: go([&] { SELF(f[i], f[i] %= f[j]); }, i, w); break;
                }
                break;
            case op_unary:
                if (!m[j].fits())
                {
                    break;
                }
                if (how < 3)
                {
                    w = m[j];
                    w.n = -w.n;
                    go([&] { f[i] = -f[j]; }, i, w);
                }
                else
                {
                    w = m[j];
                    w.n = Rat::abs(w.n);
                    go([&] { f[i] = f[j].abs(); }, i, w);
                }
                break;
            case op_step:
                if (in_range(m[i], Rat::of(1, 1)))
                {
                    calc(how & 1, m[i], Rat::of(1, 1), w);
                    if (how & 1)
                    {
                        go([&] { SELF(f[i], --f[i]); }, i, w);
                    }
                    else
                    {
                        go([&] { SELF(f[i], ++f[i]); }, i, w);
                    }
                }
                break;
            case op_gcd: {
                const Rat a = m[j], b = m[k];
                if (Rat::abs(a.n) > 40 || Rat::abs(b.n) > 40 || a.d > 40 || b.d > 40)
                {
                    const int p = (int)r.range(-40, 40), q = (int)r.range(1, 40);
                    go([&] { f[j] = Fraction(p, q); }, j, Rat::of(p, q));
                    break;
                }
                // gcd(a/b, c/d) = gcd(ad, bc) / bd
                const __int128 g = Rat::g(a.n * b.d, b.n * a.d);
                if (how < 3)
                {
                    go([&] { f[i] = Fraction::gcd(f[j], f[k]); }, i, Rat::of(g, a.d * b.d));
                }
                else
                {
                    go([&] { f[i] = Fraction::lcm(f[j], f[k]); }, i, g == 0 || a.n == 0 || b.n == 0 ? Rat() : Rat::of(Rat::abs(a.n * b.n), g));
                }
                break;
            }
            case op_reject: {
                const int a = number(r);
                switch (how)
                {
                    case 0: refuse([&] { f[i] = Fraction(a, 0); }, "zero denominator"); break;
                    case 1: refuse([&] { f[i] /= 0; }, "division by zero"); break;
                    case 2: refuse([&] { f[i] %= 0; }, "modulus by zero"); break;
                    case 3: refuse([&] { f[i] = Fraction(INT_MIN, -1); }, "a numerator out of range"); break;
                    default: refuse([&] { f[i] = Fraction(1 + (a & 1) * 2, INT_MIN); }, "a denominator out of range"); break;
                }
                break;
            }
            case op_read: {
                const int a = number(r), b = number(r);
                std::string t = std::string(r.below(3), ' ');
                const bool whole = r.chance(25), zero = !whole && b == 0;
                t += (a >= 0 && r.chance(20) ? "+" : "") + fmt("%d", a) + (whole ? "" : "/" + fmt("%d", b));
                const size_t end = t.size();
                t += r.chance(60) ? " 7/3" : "";
                bool cut = false;
                size_t err = ~0ull;
                if (op.fk == F_READ_EOF)
                {
                    t.resize(r.below(t.size() + 1));
                    count_fault(F_READ_EOF);
                    cut = true;
                }
                if (op.fk == F_READ_ERR)
                {
                    err = r.below(t.size() + 1);
                    cut = true;
                }
                SimIn dev(t, (int)r.below(4), r.next(), err);
                std::istream is(&dev);
                Op plain = op;
                plain.fk = cut ? F_NONE : plain.fk;
                Outcome o;
                arm(plain.fk, plain.fn);
                o = sut_armed([&] { is >> f[i]; });
                disarm();
                const bool got = o.ok() && !is.fail();
                if (got && !cut && !zero)
                {
                    m[i] = Rat::of(a, whole ? 1 : b);
                }
                else if (got)
                {
                    // what is left of the token may itself be a fraction
                    bool ok = false;
                    i64 n = 0, d = 1;
                    if (err == ~0ull)
                    {
                        const size_t s = t.find_first_not_of(' ');
                        char* e = nullptr;
                        if (s != std::string::npos)
                        {
                            n = strtoll(t.c_str() + s, &e, 10);
                            ok = e != t.c_str() + s;
                            if (ok && *e == '/')
                            {
                                const char* at = e + 1;
                                d = strtoll(at, &e, 10);
                                ok = e != at && d != 0;
                            }
                        }
                    }
                    else
                    {
                        ok = err >= end && !zero; // the whole token arrived before the error
                        n = a;
                        d = whole ? 1 : b;
                    }
                    if (!ok)
                    {
                        fail("accepted-damage", "%s was extracted as a fraction", show(t).c_str());
                    }
                    m[i] = Rat::of(n, d);
                }
                else if (!cut && !zero && !o.faulted() && op.fk == F_NONE)
                {
                    fail("rejected-literal", "%s was not extracted: %s", show(t).c_str(), o.what.c_str());
                }
                verify(got ? "read" : "after a failed extraction");
                note(mix2(o.k, got));
                break;
            }
            case op_write: {
                SimOut dev;
                const std::string want = m[i].text();
                if (op.fk == F_WRITE_SHORT || op.fk == F_WRITE_ERR)
                {
                    dev.limit = r.below(want.size() + 1);
                    dev.throws = op.fk == F_WRITE_ERR;
                }
                std::ostream os(&dev);
                Outcome o = sut_armed([&] { os << f[i]; });
                verify("after printing");
                if (o.ok() && os ? dev.got != want : dev.got != want.substr(0, dev.got.size()))
                {
                    fail("wrong-text", "%s printed as %s", want.c_str(), show(dev.got).c_str());
                }
                note(mix2(o.k, dev.got.size()));
                break;
            }
            case op_number: {
                double v = 0;
                int n = 0, d = 0;
                must("conversion", [&] {
                    v = (double)f[i];
                    n = f[i].numerator();
                    d = f[i].denominator(); });
                const double want = (double)(i64)m[i].n / (double)(i64)m[i].d;
                if (std::fabs(v - want) > std::fabs(want) * 1e-14)
                {
                    fail("wrong-number", "%s as a number is %.17g", m[i].show().c_str(), v);
                }
                break;
            }
        }
    }
};

static std::unique_ptr<Seg> seg;
static void do_reset(const Op&) { seg.reset(new Seg); }
static void do_exec(const Op& op)
{
    if (seg)
    {
        seg->exec(op);
    }
}
static void do_finish() { seg.reset(); }

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    out.push_back(reset);
    const int rate = r.chance(75) ? (int)r.range(10, 60) : 0;
    const int len = (int)r.range(8, thorough ? 120 : 60);
    const bool alias = r.chance(20);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = r.chance(35) ? (int)r.range(op_arith, op_assign) : (int)r.range(1, N_OPS - 1);
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 20);
        }
        if (alias && r.chance(50))
        {
            op.a[1] = op.a[2] = op.a[0];
        }
        if (r.chance(rate))
        {
            if (op.code == op_read)
            {
                static const int k[] = {F_READ_EOF, F_READ_ERR, F_ALLOC, F_ALLOC_STICKY};
                op.fk = k[r.below(4)];
            }
            else if (op.code == op_write)
            {
                op.fk = r.chance(50) ? F_WRITE_SHORT : F_WRITE_ERR;
            }
            else
            {
                static const int k[] = {F_ALLOC, F_ALLOC_STICKY, F_ALLOC_SWEEP};
                op.fk = k[r.below(3)];
            }
            op.fn = r.logu(3);
        }
        out.push_back(op);
    }
}

namespace sim
{
World world = {"frac", names, N_OPS, "digest of (operation, outcome, injected fault, resulting value) over a whole history",
               "Fraction: construction, arithmetic, gcd and lcm, extraction, printing", "allocator, input and output devices",
               gen, do_reset, do_exec, do_finish, 6000000, 400000, 40000000};
}
