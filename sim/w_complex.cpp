// World: Complex values along histories of arithmetic, rejected requests, interrupted input and output (C24).
#include "dev.hpp"
#include <cmath>
#include <complex>
#include <cstdlib>
#include <cstring>
#include <iomanip>
#include <memory>
#include <pyincpp.hpp>

using namespace sim;
using pyincpp::Complex;
typedef std::complex<long double> Z;

enum Code { op_RESET, op_set, op_copy, op_move, op_arith, op_assign, op_unary, op_pow, op_examine, op_compare, op_reject, op_read, op_write, N_OPS };
static const char* const names[] = {"RESET", "set", "copy", "move", "arith", "assign-op", "unary", "pow", "examine", "compare", "reject", "read", "write"};

struct Seg
{
    static const int N = 5;
    struct M
    {
        double re = 0, im = 0;
        Z z() const { return Z(re, im); }
        std::string show() const { return fmt("%.17g%+.17gj", re, im); }
    };
    Complex x[N];
    M m[N];

    static int norm(i64 raw, i64 n) { return (int)((u64)raw % n); }
    static bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (a == 0 && b == 0); }

    // every object holds bit for bit the value its history gave it
    void verify(const char* when, int skip = -1)
    {
        for (int i = 0; i < N; ++i)
        {
            double re = 0, im = 0;
            must("inspection", [&] {
                re = x[i].real();
                im = x[i].imag(); });
            if (i != skip && (!same(re, m[i].re) || !same(im, m[i].im)))
            {
                fail("wrong-value", "%s: complex %d is %.17g%+.17gj instead of %s", when, i, re, im, m[i].show().c_str());
            }
        }
    }
    Outcome attempt(FRef fun)
    {
        return run_op(fun, [&](const Outcome&) {
            verify("after a failed operation");
            return RETRY; });
    }
    void exact(FRef fun, int i, M want)
    {
        Outcome o = attempt(fun);
        if (!o.ok())
        {
            fail("unexpected-exception", "%s: %s", names[cur_op->code], o.what.c_str());
        }
        m[i] = want;
        verify(names[cur_op->code]);
        note(hash_str(want.show()));
    }
    // the result is want up to the given absolute error; the object's own value is what counts from then on
    void close(FRef fun, int i, Z want, long double error, const std::string& what)
    {
        Outcome o = attempt(fun);
        if (!o.ok())
        {
            fail("unexpected-exception", "%s: %s", what.c_str(), o.what.c_str());
        }
        verify(names[cur_op->code], i);
        M got;
        must("inspection", [&] {
            got.re = x[i].real();
            got.im = x[i].imag(); });
        if (!(std::abs(got.z() - want) <= error))
        {
            fail("wrong-result", "%s is %s, expected %.17Lg%+.17Lgj", what.c_str(), got.show().c_str(), want.real(), want.imag());
        }
        m[i] = got;
        note(hash_str(got.show()));
        tame(i);
    }
    // values stay in a range in which every formula for the operations is accurate
    void tame(int i)
    {
        auto wild = [](double v) { return !(std::fabs(v) < 1e6) || (v != 0 && std::fabs(v) < 1e-6); };
        if (wild(m[i].re) || wild(m[i].im))
        {
            M w;
            w.re = wild(m[i].re) ? 1.5 : m[i].re;
            w.im = wild(m[i].im) ? -0.75 : m[i].im;
            must("assignment", [&] { x[i] = Complex(w.re, w.im); });
            m[i] = w;
            probe("brought_back_to_range");
        }
    }
    void refuse(FRef fun, const char* what)
    {
        Outcome o = attempt(fun);
        if (o.k != RTE)
        {
            fail("not-rejected", "%s ended with %s", what, kind_names[o.k]);
        }
        verify(what);
        probe("rejected");
    }
    static double number(Rng& r)
    {
        switch (r.below(6))
        {
            case 0: return (double)r.range(-9, 9);
            case 1: return (double)r.range(-4000, 4000) / 64;
            case 2: return (double)r.range(-1000000, 1000000) / 997;
            case 3: return r.chance(50) ? 0 : r.chance(50) ? 1 : -1;
            case 4: return (r.chance(50) ? 1 : -1) * std::pow(10.0, (double)r.range(-5, 5));
            default: return (double)(i64)(r.next() >> 11) / (double)(1ll << 40) * (r.chance(50) ? 1 : -1);
        }
    }
    static M value(Rng& r)
    {
        M w;
        w.re = r.chance(15) ? 0 : number(r);
        w.im = r.chance(25) ? 0 : number(r);
        if (std::fabs(w.re) < 1e-6) w.re = 0;
        if (std::fabs(w.im) < 1e-6) w.im = 0;
        return w;
    }
    // any magnitude, for what only stores, writes or reads a value
    static M wide(Rng& r)
    {
        M w = value(r);
        for (double* v : {&w.re, &w.im})
        {
            if (r.chance(50))
            {
                *v = (r.chance(50) ? 1 : -1) * (1 + (double)r.below(9000) / 1000) * std::pow(10.0, (double)(r.chance(60) ? r.range(-18, -4) : r.range(-290, 290)));
            }
        }
        return w;
    }
    void calc(int how, int i, int j, int k, bool assign)
    {
        const M a = m[assign ? i : j], b = m[assign ? j : k];
        const Z p = a.z(), q = b.z();
        const long double u = 1e-14L, scale = std::abs(p) + std::abs(q);
        const std::string what = fmt("%s %c%s %s", a.show().c_str(), "+-*/"[how], assign ? "=" : "", b.show().c_str());
        const Complex &s = x[j], &t = x[k];
        switch (how)
        {
            case 0: close([&] { assign ? SELF(x[i], x[i] += s) : (void)(x[i] = s + t); }, i, p + q, u * scale, what); break;
            case 1: close([&] { assign ? SELF(x[i], x[i] -= s) : (void)(x[i] = s - t); }, i, p - q, u * scale, what); break;
            case 2: close([&] { assign ? SELF(x[i], x[i] *= s) : (void)(x[i] = s * t); }, i, p * q, u * std::abs(p) * std::abs(q), what); break;
            default:
                if (b.re == 0 && b.im == 0)
                {
                    refuse([&] { assign ? SELF(x[i], x[i] /= s) : (void)(x[i] = s / t); }, "division by zero");
                    break;
                }
                close([&] { assign ? SELF(x[i], x[i] /= s) : (void)(x[i] = s / t); }, i, p / q, u * std::abs(p) / std::abs(q), what);
                break;
        }
    }
    void exec(const Op& op)
    {
        Rng r(mix2(op.a[3], op.a[4]));
        const int i = norm(op.a[0], N), j = norm(op.a[1], N), k = norm(op.a[2], N), how = (int)r.below(4);
        switch (op.code)
        {
            case op_set: {
                M w = value(r);
                if (how == 0)
                {
                    w.im = 0;
                    exact([&] { x[i] = w.re; }, i, w);
                }
                else if (how == 1)
                {
                    w.re = (double)r.range(-99, 99);
                    w.im = 0;
                    exact([&] { x[i] = (int)w.re; }, i, w);
                }
                else
                {
                    exact([&] { x[i] = Complex(w.re, w.im); }, i, w);
                }
                break;
            }
            case op_copy:
                switch (how)
                {
                    case 0: exact([&] { Complex t(x[j]); x[i] = t; }, i, m[j]); break;
                    case 1: exact([&] { x[i] = +x[j]; }, i, m[j]); break;
                    default: exact([&] { x[i] = x[j]; }, i, m[j]); break;
                }
                break;
            case op_move: {
                if (how == 0)
                {
                    exact([&] { Complex t(x[j]); Complex u(std::move(t)); x[i] = std::move(u); }, i, m[j]);
                }
                else if (i != j)
                {
                    const M w = m[j];
                    Outcome o = attempt([&] { x[i] = std::move(x[j]); });
                    if (!o.ok())
                    {
                        fail("unexpected-exception", "move: %s", o.what.c_str());
                    }
                    m[i] = w;
                    m[j] = M();
                    verify("move");
                }
                break;
            }
            case op_arith: calc(how, i, j, k, false); break;
            case op_assign: calc(how, i, j, k, true); break;
            case op_unary: {
                M w = m[j];
                w.im = -w.im;
                if (how & 1)
                {
                    exact([&] { x[i] = x[j].conjugate(); }, i, w);
                }
                else
                {
                    w.re = -w.re;
                    exact([&] { x[i] = -x[j]; }, i, w);
                }
                break;
            }
            case op_pow: {
                M e;
                e.re = how == 0 ? (double)r.range(-4, 6) : (double)r.range(-40, 40) / 8;
                e.im = how == 1 || how == 0 ? 0 : (double)r.range(-24, 24) / 8;
                if (r.chance(35))
                {
                    // close to a whole number, or to the real axis, and yet not on it
                    const double off = (r.chance(50) ? 1 : -1) * (1 + (double)r.below(9)) * std::pow(10.0, (double)r.range(-10, -2));
                    e.re = (double)r.range(-4, 5) / (double)r.range(1, 2);
                    (r.chance(70) ? e.re : e.im) += off;
                }
                const long double size = std::abs(m[j].z());
                const std::string what = fmt("pow(%s, %s)", m[j].show().c_str(), e.show().c_str());
                if (e.re == 0 && e.im == 0)
                {
                    close([&] { x[i] = Complex::pow(x[j], Complex(e.re, e.im)); }, i, Z(1), 1e-14L, what);
                    break;
                }
                if (size == 0)
                {
                    refuse([&] { x[i] = Complex::pow(x[j], Complex(e.re, e.im)); }, "a power of zero");
                    break;
                }
                if (size < 0.01L || size > 100)
                {
                    break;
                }
                const Z want = std::exp(e.z() * std::log(m[j].z()));
                close([&] { x[i] = Complex::pow(x[j], Complex(e.re, e.im)); }, i, want, 1e-11L * std::abs(want), what);
                break;
            }
            case op_examine: {
                double a = 0, b = 0;
                must("inspection", [&] {
                    a = x[i].abs();
                    b = x[i].arg(); });
                const Z z = m[i].z();
                if (!(std::fabs(a - std::abs(z)) <= 1e-14L * std::abs(z)))
                {
                    fail("wrong-result", "abs of %s is %.17g", m[i].show().c_str(), a);
                }
                const long double angle = std::arg(z);
                // the two ends of the branch cut are the same direction
                if (z != Z(0) && !(std::fabs(b - angle) <= 1e-14L * 4 || (z.imag() == 0 && std::fabs(std::fabs(b) - std::fabs(angle)) <= 1e-14L * 4)))
                {
                    fail("wrong-result", "arg of %s is %.17g", m[i].show().c_str(), b);
                }
                verify("examine");
                break;
            }
            case op_compare: {
                bool eq = false, ne = false, rev = false;
                Outcome o = attempt([&] {
                    eq = x[i] == x[j];
                    ne = x[i] != x[j];
                    rev = x[j] == x[i]; });
                const bool equal = m[i].re == m[j].re && m[i].im == m[j].im;
                const bool differ = std::fabs(m[i].re - m[j].re) > 1e-9 || std::fabs(m[i].im - m[j].im) > 1e-9;
                if (!o.ok() || eq == ne || eq != rev || (equal && !eq) || (differ && eq))
                {
                    fail("wrong-comparison", "%s against %s: == %d, != %d, reversed == %d", m[i].show().c_str(), m[j].show().c_str(), eq, ne, rev);
                }
                verify("compare");
                break;
            }
            case op_reject:
                switch (how)
                {
                    case 0: refuse([&] { x[i] /= 0; }, "division by zero"); break;
                    case 1: refuse([&] { x[i] = x[j] / Complex(0, 0); }, "division by zero"); break;
                    case 2: refuse([&] { Complex z; x[i] = x[j] / z; }, "division by zero"); break;
                    default: refuse([&] { x[i] = Complex::pow(0, Complex(1 + (double)r.below(3), (double)r.below(3))); }, "a power of zero"); break;
                }
                break;
            case op_read: {
                const M w = r.chance(30) ? wide(r) : value(r);
                const int form = (int)r.below(3); // a, bj, a+bj
                const std::string a = fmt("%.17g", w.re), b = fmt(form == 2 ? "%+.17g" : "%.17g", w.im);
                std::string t = std::string(r.below(3), ' ');
                t += form == 0 ? a : form == 1 ? b + "j" : a + b + "j";
                const size_t end = t.size();
                t += r.chance(60) ? " 7+3j" : "";
                bool cut = false;
                size_t err = ~0ull;
                if (op.fk == F_READ_EOF)
                {
                    t.resize(r.below(t.size() + 1));
                    count_fault(F_READ_EOF);
                    cut = true;
                }
                if (op.fk == F_READ_ERR)
                {
                    err = r.below(t.size() + 1);
                    cut = true;
                }
                SimIn dev(t, (int)r.below(4), r.next(), err);
                std::istream is(&dev);
                arm(cut ? F_NONE : op.fk, op.fn);
                Outcome o = sut_armed([&] { is >> x[i]; });
                disarm();
                const bool got = o.ok() && !is.fail();
                M want;
                want.re = form == 1 ? 0 : w.re;
                want.im = form == 0 ? 0 : w.im;
                if (got && !cut)
                {
                    m[i] = want;
                }
                else if (got)
                {
                    // what is left of the token may itself be a complex number
                    bool ok = false;
                    M n;
                    if (err == ~0ull)
                    {
                        const char* s = t.c_str() + std::min(t.find_first_not_of(' '), t.size());
                        char* e = nullptr;
                        n.re = strtod(s, &e);
                        ok = e != s;
                        if (ok && *e == 'j')
                        {
                            n.im = n.re;
                            n.re = 0;
                            ++e;
                        }
                        else if (ok && (*e == '+' || *e == '-'))
                        {
                            s = e;
                            n.im = strtod(s, &e);
                            ok = e != s && *e == 'j';
                            e += ok;
                        }
                        ok = ok && (*e == 0 || *e == ' ');
                    }
                    else
                    {
                        ok = err >= end;
                        n = want;
                    }
                    if (!ok)
                    {
                        fail("accepted-damage", "%s was extracted as a complex number", show(t).c_str());
                    }
                    m[i] = n;
                }
                else if (!cut && !o.faulted() && op.fk == F_NONE)
                {
                    fail("rejected-literal", "%s was not extracted: %s", show(t).c_str(), o.what.c_str());
                }
                verify(got ? "read" : "after a failed extraction");
                note(mix2(o.k, got));
                tame(i);
                break;
            }
            case op_write: {
                SimOut dev;
                const int digits = r.chance(50) ? 17 : (int)r.range(1, 17);
                const bool apart = r.chance(40);
                const M w = apart ? wide(r) : m[i];
                Complex other_one;
                must("construction", [&] { other_one = Complex(w.re, w.im); });
                const Complex& source = apart ? other_one : x[i];
                const std::string want = fmt("(%.*g%c%.*gj)", digits, w.re == 0 ? 0.0 : w.re, w.im < 0 ? '-' : '+', digits, std::fabs(w.im));
                const bool zero = w.re == 0 && std::signbit(w.re);
                if (op.fk == F_WRITE_SHORT || op.fk == F_WRITE_ERR)
                {
                    dev.limit = r.below(want.size() + 1);
                    dev.throws = op.fk == F_WRITE_ERR;
                }
                std::ostream os(&dev);
                os << std::setprecision(digits);
                Outcome o = sut_armed([&] { os << source; });
                verify("after printing");
                const std::string other = "(-" + want.substr(1); // a negative zero may show its sign
                auto fits = [&](const std::string& w) { return o.ok() && os ? dev.got == w : dev.got == w.substr(0, dev.got.size()); };
                if (!fits(want) && !(zero && fits(other)))
                {
                    fail("wrong-text", "%s printed as %s", want.c_str(), show(dev.got).c_str());
                }
                note(mix2(o.k, dev.got.size()));
                break;
            }
        }
    }
};

static std::unique_ptr<Seg> seg;
static void do_reset(const Op&) { seg.reset(new Seg); }
static void do_exec(const Op& op)
{
    if (seg)
    {
        seg->exec(op);
    }
}
static void do_finish() { seg.reset(); }

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    out.push_back(reset);
    const int rate = r.chance(75) ? (int)r.range(10, 60) : 0;
    const int len = (int)r.range(8, thorough ? 120 : 60);
    const bool alias = r.chance(20);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = r.chance(35) ? (int)r.range(op_arith, op_assign) : (int)r.range(1, N_OPS - 1);
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 20);
        }
        if (alias && r.chance(50))
        {
            op.a[1] = op.a[2] = op.a[0];
        }
        if (r.chance(rate))
        {
            if (op.code == op_read)
            {
                static const int k[] = {F_READ_EOF, F_READ_ERR, F_ALLOC, F_ALLOC_STICKY};
                op.fk = k[r.below(4)];
            }
            else if (op.code == op_write)
            {
                op.fk = r.chance(50) ? F_WRITE_SHORT : F_WRITE_ERR;
            }
            else
            {
                static const int k[] = {F_ALLOC, F_ALLOC_STICKY, F_ALLOC_SWEEP};
                op.fk = k[r.below(3)];
            }
            op.fn = r.logu(3);
        }
        out.push_back(op);
    }
}

namespace sim
{
World world = {"complex", names, N_OPS, "digest of (operation, outcome, injected fault, resulting value) over a whole history",
               "Complex: construction, arithmetic, pow, comparison, extraction, printing", "allocator, input and output devices",
               gen, do_reset, do_exec, do_finish, 6000000, 400000, 40000000};
}
