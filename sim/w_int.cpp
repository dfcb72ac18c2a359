// World: histories of Int operations with failing allocations, against an independent big integer.
// PROP 1: arithmetic (C01); PROP 2: derived functions (C02).
#include "rt.hpp"
#include <algorithm>
#include <boost/multiprecision/cpp_int.hpp>
#include <memory>
#include <pyincpp.hpp>
#include <sstream>

using namespace sim;
using pyincpp::Int;
typedef boost::multiprecision::cpp_int Ref;

#define OPS1(X) \
    X(RESET) X(from_int) X(parse) X(parse_bad) X(copy_construct) X(move_construct) X(copy_assign) X(move_assign) X(swap) X(add_assign) X(sub_assign) X(mul_assign) X(div_assign) X(mod_assign) X(add) X(sub) X(mul) X(div) X(mod) X(inc) X(dec) X(neg) X(pos) X(abs_) X(compare) X(examine) X(from_stream) X(mixed) X(div_zero) X(chain) X(near)
#define OPS2(X) X(sqrt) X(sqrt_bad) X(pow) X(pow_mod) X(pow_bad) X(log) X(log_bad) X(gcd) X(lcm) X(factorial) X(factorial_bad) X(is_prime) X(next_prime) X(to_integer)
enum Code
{
#define X(n) op_##n,
    OPS1(X) OPS2(X)
#undef X
        N_OPS
};
static const char* const names[] = {
#define X(n) #n,
    OPS1(X) OPS2(X)
#undef X
};

static Ref pow10(int n) { return boost::multiprecision::pow(Ref(10), n); }

// a reference value as a pure function of two script numbers
static Ref value(i64 seed, i64 shape)
{
    Rng r(mix2((u64)seed, (u64)shape));
    int len;
    switch ((u64)shape % 8)
    {
        case 0: len = 0; break;
        case 1: len = 1; break;
        case 2: len = (int)r.range(1, 3); break;
        case 3: len = (int)r.range(2, 10); break;
        case 4: len = (int)r.range(8, 22); break;
        case 5: len = (int)r.range(15, 45); break;
        case 6: len = (int)r.range(1, 12); break;
        default: len = r.chance(10) ? (int)r.range(100, 250) : (int)r.range(20, 80); break;
    }
    if (!len)
    {
        return 0;
    }
    std::string s;
    int style = (int)r.below(8);
    while ((int)s.size() < len)
    {
        char c;
        switch (style)
        {
            case 0: c = '9'; break;
            case 1: c = s.empty() ? '1' : '0'; break;
            case 2: c = r.chance(80) ? '0' : (char)('1' + r.below(9)); break;
            case 3: c = r.chance(80) ? '9' : (char)('0' + r.below(9)); break;
            case 4: c = s.size() + 1 == (size_t)len ? (char)('0' + r.below(10)) : s.empty() ? '1' : '0'; break;
            default: c = (char)('0' + r.below(10)); break;
        }
        if (s.empty() && c == '0')
        {
            c = '5';
        }
        s += c;
    }
    Ref v(s);
    switch (r.below(12))
    {
        case 0: v = v * v; break;
        case 1: v = v * v - 1; break;
        case 2: v = boost::multiprecision::pow(Ref(2), (unsigned)r.range(28, 68)) + r.range(-1, 1); break;
        case 3: v = pow10(len) + r.range(-1, 1); break;
        default: break;
    }
    return v;
}
static Ref signed_value(i64 seed, i64 shape)
{
    Ref v = value(seed, shape);
    return mix2((u64)seed, 77) % 2 ? v : -v;
}

// (spelling a long number takes quadratic time: keep the last ones)
static std::string text(const Ref& v)
{
    if (v.backend().size() < 100)
    {
        return v.str();
    }
    static std::pair<Ref, std::string> kept[16];
    static int next;
    for (auto& e : kept)
    {
        if (e.first == v)
        {
            return e.second;
        }
    }
    auto& e = kept[next++ % 16];
    e.first = v;
    e.second = v.str();
    return e.second;
}
static Int make(const Ref& v) { return Int(text(v).c_str()); }

static std::string print(const Int& x)
{
    std::string r;
    must("printing", [&] {
        std::ostringstream o;
        o << x;
        Out out;
        r = o.str(); });
    return r;
}

struct Seg
{
    static const int N = 5;
    Int X[N];
    Ref M[N];
    int count = 0, max_digits;

    explicit Seg(const Op& r)
        : max_digits(std::max<i64>(20, r.a[1]))
    {
        // long numbers to start with
        for (int k = 0; k < N && r.a[2]; ++k)
        {
            Rng g(mix2((u64)r.a[3], k));
            int len = (int)(g.chance(k < 2 ? 80 : 60) ? r.a[2] - g.below(3) : g.range(1, r.a[4] && g.chance(60) ? 30 : r.a[2]));
            int style = g.chance(k < 2 ? 50 : 10) ? 0 : (int)g.below(4);
            std::string t(1, (char)('1' + g.below(9)));
            while ((int)t.size() < len)
            {
                t += style == 0 ? '9' : style == 1 ? '0' : style == 2 && g.chance(90) ? "09"[t.size() / 100 % 2] : (char)('0' + g.below(10));
            }
            M[k] = Ref(t);
            M[k] = g.chance(50) ? M[k] : Ref(-M[k]);
            X[k] = make(M[k]);
        }
    }

    void check(const Int& x, const Ref& m, const char* cls, const char* who)
    {
        std::string want = text(m), got = print(x);
        if (got != want)
        {
            fail(cls, "%s: %s is %s, expected %s", names[cur_op->code], who, got.substr(0, 300).c_str(), want.substr(0, 300).c_str());
        }
        bool q[5] = {};
        int d = 0;
        bool eq = false, ne = true;
        must("examination", [&] {
            q[0] = x.is_zero();
            q[1] = x.is_positive();
            q[2] = x.is_negative();
            q[3] = x.is_even();
            q[4] = x.is_odd();
            d = x.digits();
            Int fresh(want.c_str());
            eq = x == fresh;
            ne = x != fresh || x < fresh || x > fresh; });
        bool odd = bit_test(m < 0 ? Ref(-m) : m, 0);
        bool w[5] = {m == 0, m > 0, m < 0, !odd, odd};
        int wd = m == 0 ? 0 : (int)want.size() - (m < 0);
        if (memcmp(q, w, sizeof q) || d != wd)
        {
            fail(cls, "%s: %s prints %s but zero/positive/negative/even/odd = %d%d%d%d%d, digits() = %d", names[cur_op->code], who, got.substr(0, 300).c_str(), q[0], q[1], q[2], q[3], q[4], d);
        }
        if (!eq || ne)
        {
            fail(cls, "%s: %s prints %s but does not compare equal to that number", names[cur_op->code], who, got.substr(0, 300).c_str());
        }
    }
    void verify(const char* cls)
    {
        static const char* who[N] = {"object 0", "object 1", "object 2", "object 3", "object 4"};
        for (int i = 0; i < N; ++i)
        {
            check(X[i], M[i], cls, who[i]);
        }
        note(hash_str(text(M[0])));
    }
    void text_verify(const char* cls)
    {
        for (int i = 0; i < N; ++i)
        {
            std::string got = print(X[i]);
            if (got != text(M[i]))
            {
                fail(cls, "%s: object %d is %s, expected %s", names[cur_op->code], i, got.substr(0, 300).c_str(), text(M[i]).substr(0, 300).c_str());
            }
        }
    }
    static int norm(i64 raw, i64 n) { return (int)((u64)raw % n); }
    static int len(const Ref& v) { return (int)text(v).size(); }
    // would the multiplication or the division of two long numbers take too long?
    static bool slow(int code, const Ref& a, const Ref& b)
    {
        const i64 p = len(a), q = len(b);
        switch (code)
        {
            case op_mul:
            case op_mul_assign: return p * q > 30000000;
            case op_chain: return (p + q) * (p + q) > 30000000;
            case op_div:
            case op_mod:
            case op_div_assign:
            case op_mod_assign: {
                if (b == 0 || p <= q || (p - q) * p < 5000000)
                {
                    return false;
                }
                // few subtractions if the quotient has few digits other than 0
                i64 sum = 0;
                for (char c : text(Ref(a / b)))
                {
                    sum += c == '-' ? 0 : c - '0';
                }
                return sum * p > 20000000 || (p - q) * p > 2000000000;
            }
            default: return false;
        }
    }

    template <class F>
    void expect_int(F f, const Ref& want, int k)
    {
        auto keep = [&](const Outcome&) {
            verify("failed-op-effect");
            return RETRY;
        };
        std::unique_ptr<Int> r;
        Outcome o = run_op([&] { r.reset(new Int(f())); }, keep);
        if (o.k != OK)
        {
            fail("refused-valid", "%s refused valid operands: %s", names[cur_op->code], o.what.c_str());
        }
        check(*r, want, "wrong-result", "the result");
        text_verify("operand-changed");
        if (k >= 0 && len(want) <= max_digits)
        {
            X[k] = std::move(*r);
            M[k] = want;
        }
    }
    template <class F>
    void expect_refusal(F f)
    {
        auto keep = [&](const Outcome&) {
            verify("failed-op-effect");
            return RETRY;
        };
        Outcome o = run_op(f, keep);
        if (o.k != RTE)
        {
            fail("accepted-invalid", "%s accepted an undefined operation", names[cur_op->code]);
        }
        verify("failed-op-effect");
    }
    template <class F>
    void expect_flag(F f, bool want, const char* what)
    {
        auto keep = [&](const Outcome&) {
            verify("failed-op-effect");
            return RETRY;
        };
        bool got = false;
        Outcome o = run_op([&] { got = f(); }, keep);
        if (o.k != OK || got != want)
        {
            fail("wrong-result", "%s is %d, expected %d", what, got, want);
        }
    }

    void put(int i, const Ref& v)
    {
        disarm();
        X[i] = make(v);
        M[i] = v;
    }

    void exec(const Op& op)
    {
        int i = norm(op.a[0], N), j = norm(op.a[1], N), k = norm(op.a[2], N);
        i64 seed = op.a[3], shape = op.a[4], extra = op.a[5];
        Int& x = X[i];
        const Int &ca = X[i], &cb = X[j];
        const Ref &a = M[i], &b = M[j];
        if (max_digits > 5000 && (slow(op.code, a, b) || (op.code == op_mixed && extra % 6 == 4)))
        {
            return;
        }
        auto keep = [&](const Outcome&) {
            verify("failed-op-effect");
            return RETRY;
        };
        auto assign_op = [&](auto f, const Ref& want) {
            Ref w = want;
            if (len(w) > max_digits)
            {
                put(i, signed_value(seed, shape));
                return;
            }
            const Int* back = nullptr;
            Outcome o = run_op([&] { back = &f(); }, keep);
            if (o.k != OK)
            {
                fail("refused-valid", "%s refused valid operands: %s", names[op.code], o.what.c_str());
            }
            if (back != &x)
            {
                fail("wrong-result", "%s does not return the object itself", names[op.code]);
            }
            M[i] = w;
        };
        switch (op.code)
        {
            case op_from_int: {
                static const int special[] = {0, 1, -1, 9, 10, -10, 99, 100, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1000000000, -1000000000};
                int v = extra % 3 == 0 ? special[norm(seed, 14)] : extra % 3 == 1 ? (int)(seed % 200) - 100 : (int)(mix2(seed, shape) & 0xffffffff);
                expect_int([&] { return Int(v); }, Ref(v), i);
                break;
            }
            case op_parse: {
                Ref v = value(seed, shape);
                std::string s = text(v);
                if (extra % 4 == 1)
                {
                    s = std::string(1 + extra % 5, '0') + s;
                }
                int sg = norm(extra / 8, 3);
                s = (sg == 0 ? "" : sg == 1 ? "-" : "+") + s;
                if (sg == 1)
                {
                    v = -v;
                }
                if (extra % 2)
                {
                    expect_int([&] { return Int(s.c_str()); }, v, i);
                }
                else
                {
                    Outcome o = run_op([&] { x = s.c_str(); }, keep);
                    if (o.k != OK)
                    {
                        fail("refused-valid", "literal %s refused", s.c_str());
                    }
                    M[i] = v;
                }
                break;
            }
            case op_parse_bad: {
                std::string s = text(signed_value(seed, shape % 7 + 1));
                static const char* const bad[] = {"", "+", "-", "+-", "--1", "+ 1", " 1", "1 ", "0x10", "1e5", "1.0", "1/2", "a", "\n"};
                std::string t = bad[norm(extra, 14)];
                if (extra % 3 == 0)
                {
                    static const char junk[] = {'a', '.', ' ', '-', '+', '/', ':', '\t', '\x01', '\xb2', 'E', '_'};
                    t = s;
                    t.insert(t.begin() + (s[0] == '-') + norm(extra / 3, (i64)t.size() + 1 - (s[0] == '-')), junk[norm(extra / 7, 12)]);
                    if (t[0] == '-' && t.size() > 1 && isdigit(t[1]) && t.find_first_not_of("0123456789", 1) == std::string::npos)
                    {
                        t += '?';
                    }
                    if (t[0] == '+' && t.find_first_not_of("0123456789", 1) == std::string::npos)
                    {
                        t += '?';
                    }
                }
                expect_refusal([&] { x = t.c_str(); });
                break;
            }
            case op_copy_construct: expect_int([&] { return Int(ca); }, a, j); break;
            case op_move_construct: {
                std::unique_ptr<Int> r;
                Outcome o = run_op([&] { r.reset(new Int(std::move(x))); }, keep);
                if (o.k != OK)
                {
                    fail("refused-valid", "move construction failed");
                }
                Ref v = a;
                M[i] = 0;
                check(*r, v, "wrong-result", "the moved-to object");
                verify("content");
                X[k] = std::move(*r);
                M[k] = v;
                break;
            }
            case op_copy_assign: {
                Ref w = b;
                assign_op([&]() -> Int& { return x = cb; }, w);
                break;
            }
            case op_move_assign:
                if (i != j && run_op([&] { x = std::move(X[j]); }, keep).ok())
                {
                    M[i] = M[j];
                    M[j] = 0;
                }
                break;
            case op_swap:
                if (run_op([&] { using std::swap; swap(X[i], X[j]); }, keep).ok())
                {
                    std::swap(M[i], M[j]);
                }
                break;
            case op_add_assign: assign_op([&]() -> Int& { return x += cb; }, a + b); break;
            case op_sub_assign: assign_op([&]() -> Int& { return x -= cb; }, a - b); break;
            case op_mul_assign: assign_op([&]() -> Int& { return x *= cb; }, a * b); break;
            case op_div_assign:
                if (b != 0)
                {
                    assign_op([&]() -> Int& { return x /= cb; }, a / b);
                }
                break;
            case op_mod_assign:
                if (b != 0)
                {
                    assign_op([&]() -> Int& { return x %= cb; }, a % b);
                }
                break;
            case op_add: expect_int([&] { return ca + cb; }, a + b, k); break;
            case op_sub: expect_int([&] { return ca - cb; }, a - b, k); break;
            case op_mul: expect_int([&] { return ca * cb; }, a * b, k); break;
            case op_div:
                if (b != 0)
                {
                    Ref q = a / b, m = a % b;
                    expect_int([&] { return ca / cb; }, q, -1);
                    expect_int([&] { return ca / cb * cb + ca % cb; }, a, -1);
                    if (len(q) <= max_digits)
                    {
                        put(k, q);
                    }
                }
                break;
            case op_mod:
                if (b != 0)
                {
                    expect_int([&] { return ca % cb; }, a % b, k);
                }
                break;
            case op_mixed: {
                // built-in operands convert implicitly
                int v = (int)(seed % 2000) - 1000;
                switch (extra % 6)
                {
                    case 0: assign_op([&]() -> Int& { return x += v; }, a + v); break;
                    case 1: assign_op([&]() -> Int& { return x -= v; }, a - v); break;
                    case 2: assign_op([&]() -> Int& { return x *= v; }, a * v); break;
                    case 3: expect_int([&] { return ca + v; }, a + v, k); break;
                    case 4:
                        if (v)
                        {
                            assign_op([&]() -> Int& { return x /= v; }, a / v);
                        }
                        break;
                    default: expect_flag([&] { return ca < v; }, a < v, "comparison with an int"); break;
                }
                break;
            }
            case op_near: {
                if (max_digits > 5000 && seed % 2)
                {
                    // a long quotient with few digits other than 0
                    const Ref d = signed_value(seed, 1 + shape % 3), q = pow10(max_digits - 20 - norm(shape, 60)) + norm(seed, 30) * pow10(norm(extra, max_digits - 100));
                    if (i != j && d != 0)
                    {
                        const Ref p = q * d + norm(shape, 3);
                        put(i, p);
                        put(j, d);
                        probe("long_quotients");
                        if (!slow(op_div, p, d))
                        {
                            expect_int([&] { return ca / cb; }, p / d, -1);
                            expect_int([&] { return ca % cb; }, p % d, k);
                        }
                    }
                    break;
                }
                // operands close to each other: cancellation, borrow chains, equal lengths
                Ref v = a + (seed % 5 - 2);
                if (extra % 3 == 0)
                {
                    v = a * 10 + seed % 10;
                }
                else if (extra % 3 == 1)
                {
                    v = -v;
                }
                if (len(v) <= max_digits)
                {
                    put(j, v);
                }
                break;
            }
            case op_chain: {
                // one expression with several temporaries
                expect_int([&] { return (ca + cb) * (ca - cb); }, (a + b) * (a - b), k);
                break;
            }
            case op_div_zero:
                switch (extra % 4)
                {
                    case 0: expect_refusal([&] { x /= 0; }); break;
                    case 1: expect_refusal([&] { x %= 0; }); break;
                    case 2: expect_refusal([&] { Int r = ca / Int(); }); break;
                    default: expect_refusal([&] { Int r = ca % Int(); }); break;
                }
                break;
            case op_inc: assign_op([&]() -> Int& { return ++x; }, a + 1); break;
            case op_dec: assign_op([&]() -> Int& { return --x; }, a - 1); break;
            case op_neg: expect_int([&] { return -ca; }, -a, k); break;
            case op_pos: expect_int([&] { return +ca; }, a, k); break;
            case op_abs_: expect_int([&] { return ca.abs(); }, a < 0 ? Ref(-a) : a, k); break;
            case op_compare: {
                bool q[6] = {};
                Outcome o = run_op([&] {
                    q[0] = ca == cb;
                    q[1] = ca != cb;
                    q[2] = ca < cb;
                    q[3] = ca <= cb;
                    q[4] = ca > cb;
                    q[5] = ca >= cb; },
                                   keep);
                bool w[6] = {a == b, a != b, a < b, a <= b, a > b, a >= b};
                if (o.k != OK || memcmp(q, w, sizeof q))
                {
                    fail("wrong-result", "comparison of %s and %s", text(a).c_str(), text(b).c_str());
                }
                break;
            }
            case op_examine: {
                std::size_t h = 0, h2 = 0;
                Outcome o = run_op([&] {
                    h = std::hash<Int>{}(ca);
                    Int c(ca);
                    h2 = std::hash<Int>{}(c); },
                                   keep);
                if (o.k != OK || h != h2)
                {
                    fail("wrong-result", "the hash of a copy differs");
                }
                break;
            }
            case op_from_stream: {
                std::string s = text(a);
                std::istringstream is(s);
                Int got;
                must("extraction", [&] { is >> got; });
                check(got, a, "wrong-result", "the extracted value");
                break;
            }
            // ------------------------------------------------ derived functions
            case op_sqrt: {
                Ref v = a < 0 ? Ref(-a) : a;
                if (extra % 3 == 0)
                {
                    Ref s = value(seed, shape % 7);
                    v = s * s + (i64)(extra / 3 % 5) - 2;
                    if (v < 0)
                    {
                        v = 0;
                    }
                }
                else if (extra % 3 == 1)
                {
                    v = norm(seed, 300);
                }
                if (len(v) > 90)
                {
                    break;
                }
                Int n = make(v);
                expect_int([&] { return Int::sqrt(n); }, boost::multiprecision::sqrt(v), k);
                check(n, v, "operand-changed", "the operand");
                break;
            }
            case op_sqrt_bad: {
                Int n = make(-(value(seed, shape) + 1));
                expect_refusal([&] { Int::sqrt(n); });
                break;
            }
            case op_pow: {
                Ref base = extra % 4 == 0 ? Ref(norm(seed, 7) - 3) : signed_value(seed, shape % 7);
                int e = norm(extra / 4, extra % 5 == 0 ? 90 : 12);
                if (len(base) * e > 220)
                {
                    e = 220 / len(base);
                }
                if (extra % 11 == 0 && base != 0)
                {
                    e = -norm(extra, 40);
                }
                Ref want;
                if (e >= 0)
                {
                    want = boost::multiprecision::pow(base, e);
                }
                else
                {
                    want = base == 1 ? 1 : base == -1 ? (e % 2 ? -1 : 1) : 0;
                }
                Int bi = make(base), ei(e);
                expect_int([&] { return Int::pow(bi, ei); }, want, k);
                check(bi, base, "operand-changed", "the base");
                check(ei, e, "operand-changed", "the exponent");
                break;
            }
            case op_pow_mod: {
                Ref base = extra % 4 == 0 ? Ref(norm(seed, 7) - 3) : signed_value(seed, shape % 6);
                Ref e = extra % 3 == 0 ? Ref(norm(seed, 20)) : value(seed + 1, 1 + extra % 4);
                Ref m = extra % 5 == 0 ? Ref(1 + norm(seed, 3)) : signed_value(seed + 2, 1 + shape % 4);
                if (m == 0)
                {
                    break;
                }
                Ref am = m < 0 ? Ref(-m) : m, ab = base < 0 ? Ref(-base) : base;
                Ref want = boost::multiprecision::powm(Ref(ab % am), e, am);
                if (e == 0)
                {
                    want = Ref(1) % am;
                }
                if (base < 0 && bit_test(e, 0))
                {
                    want = -want;
                }
                Int bi = make(base), ei = make(e), mi = make(m);
                expect_int([&] { return Int::pow(bi, ei, mi); }, want, k);
                check(bi, base, "operand-changed", "the base");
                check(ei, e, "operand-changed", "the exponent");
                check(mi, m, "operand-changed", "the modulus");
                break;
            }
            case op_pow_bad: {
                Int e = make(-(value(seed, shape % 5) + 1));
                expect_refusal([&] { Int::pow(0, e); });
                break;
            }
            case op_log: {
                Ref base = 2 + (extra % 2 ? Ref(norm(seed, 20)) : value(seed, shape % 4));
                if (extra % 7 == 0)
                {
                    // bases for which somebody may know a short cut
                    static const int special[] = {2, 3, 4, 8, 10, 16, 32, 36, 64, 100, 128, 255, 256, 512, 1000, 1024, 10000, 65536, 1000000, 1000000000};
                    base = special[norm(seed, 20)];
                }
                Ref v;
                if (extra % 3 == 0)
                {
                    v = boost::multiprecision::pow(base, 1 + norm(extra, 60 / len(base) + 1)) + (i64)(extra / 3 % 3) - 1;
                }
                else
                {
                    v = value(seed + 5, shape % 6 + 1);
                }
                if (v <= 0 || len(v) > 80)
                {
                    break;
                }
                Ref want = 0, p = v / base;
                while (p != 0)
                {
                    ++want;
                    p /= base;
                }
                Int vi = make(v), bi = make(base);
                expect_int([&] { return Int::log(vi, bi); }, want, k);
                check(vi, v, "operand-changed", "the operand");
                check(bi, base, "operand-changed", "the base");
                break;
            }
            case op_log_bad: {
                Int bad = make(-value(seed, shape)), good = make(value(seed, shape) + 2);
                int one = norm(seed, 6) - 4; // -4..1
                if (extra % 2)
                {
                    expect_refusal([&] { Int::log(bad, good); });
                }
                else
                {
                    expect_refusal([&] { Int::log(good, one); });
                }
                break;
            }
            case op_gcd:
            case op_lcm: {
                Ref p = signed_value(seed, shape % 7), q = signed_value(seed + 1, extra % 7), c = value(seed + 2, 2);
                if (extra % 2)
                {
                    p *= c;
                    q *= c;
                }
                if (extra % 13 == 0)
                {
                    q = p;
                }
                if (len(p) + len(q) > 110)
                {
                    break;
                }
                Int pi = make(p), qi = make(q);
                bool same = extra % 13 == 0;
                const Int& second = same ? pi : qi;
                if (op.code == op_gcd)
                {
                    expect_int([&] { return Int::gcd(pi, second); }, Ref(gcd(p, q)), k);
                }
                else
                {
                    expect_int([&] { return Int::lcm(pi, second); }, Ref(lcm(p, q)), k);
                }
                check(pi, p, "operand-changed", "the first operand");
                check(qi, q, "operand-changed", "the second operand");
                break;
            }
            case op_factorial: {
                int n = norm(seed, extra % 7 == 0 ? 90 : 20);
                Ref want = 1;
                for (int t = 2; t <= n; ++t)
                {
                    want *= t;
                }
                Int ni(n);
                expect_int([&] { return ni.factorial(); }, want, k);
                check(ni, n, "operand-changed", "the operand");
                break;
            }
            case op_factorial_bad: {
                Int n = make(-(value(seed, shape) + 1));
                expect_refusal([&] { n.factorial(); });
                break;
            }
            case op_is_prime:
            case op_next_prime: {
                i64 v = extra % 3 == 0 ? norm(seed, 60) - 10 : extra % 3 == 1 ? norm(seed, 3000) : norm(seed * 31 + shape, 200000);
                if (extra % 5 == 0)
                {
                    // squares of primes and products of neighbours
                    static const int pr[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 97, 101, 103, 211, 223, 307, 311, 313};
                    int p = norm(seed, 21);
                    v = (i64)pr[p] * pr[p + norm(extra, 2)];
                }
                if (extra % 7 == 0)
                {
                    // composite numbers without an obvious sign of it (Carmichael numbers and strong pseudoprimes), with a small enough least factor
                    static const int pseudo[] = {341, 561, 645, 703, 781, 1105, 1387, 1541, 1729, 1891, 1905, 2047, 2465, 2701, 2821, 3277, 4033, 4369, 4681, 6601, 8321, 8911, 10585, 15841, 29341,
                                                 41041, 42799, 46657, 49141, 52633, 65281, 74665, 75361, 80581, 85489, 88357, 90751, 121, 286, 671, 217, 25, 325, 29341, 314821, 340561, 488881, 512461,
                                                 825265, 1193221, 1373653, 1530787, 1987021, 2284453, 3116107, 5173601, 6787327, 8719309, 9006401, 9863461, 11541307, 13057787, 15220951, 15789, 25326001, 27509653, 999983};
                    v = pseudo[norm(seed * 7 + shape, sizeof pseudo / sizeof *pseudo)];
                    probe("pseudoprimes");
                }
                auto prime = [](i64 n) {
                    if (n < 2)
                    {
                        return false;
                    }
                    for (i64 d = 2; d * d <= n; ++d)
                    {
                        if (n % d == 0)
                        {
                            return false;
                        }
                    }
                    return true;
                };
                Int ni((int)v);
                if (op.code == op_is_prime)
                {
                    expect_flag([&] { return ni.is_prime(); }, prime(v), "is_prime()");
                }
                else
                {
                    v %= 30000;
                    ni = Int((int)v);
                    i64 w = v + 1;
                    while (!prime(w))
                    {
                        ++w;
                    }
                    expect_int([&] { return ni.next_prime(); }, Ref(w), k);
                }
                check(ni, v, "operand-changed", "the operand");
                break;
            }
            case op_to_integer: {
                Rng r(mix2(seed, shape));
                u64 bits = r.next();
                bits >>= r.below(64);
                switch (extra % 5)
                {
                    case 0: {
                        int v = extra % 7 == 0 ? (r.chance(50) ? INT_MIN : INT_MAX) : (int)bits;
                        conv<int>(v, v);
                        break;
                    }
                    case 1: {
                        long v = extra % 7 == 0 ? (r.chance(50) ? LONG_MIN : LONG_MAX) : (long)bits;
                        conv<long>(v, v);
                        break;
                    }
                    case 2: {
                        long long v = extra % 7 == 0 ? (r.chance(50) ? LLONG_MIN + 1 : LLONG_MAX) : -(long long)(bits >> 1);
                        conv<long long>(v, v);
                        break;
                    }
                    case 3: {
                        unsigned v = extra % 7 == 0 ? UINT_MAX : (unsigned)bits;
                        conv<unsigned>(v, v);
                        break;
                    }
                    default: {
                        unsigned long long v = extra % 7 == 0 ? ULLONG_MAX : bits;
                        conv<unsigned long long>(v, v);
                        break;
                    }
                }
                break;
            }
        }
        verify("content");
    }
    template <class T>
    void conv(const Ref& v, T want)
    {
        Int n = make(v);
        T got = 0;
        Outcome o = run_op([&] { got = n.to_integer<T>(); }, [&](const Outcome&) { return RETRY; });
        if (o.k != OK || got != want)
        {
            fail("wrong-result", "to_integer of %s gave %s", text(v).c_str(), text(Ref(got)).c_str());
        }
        check(n, v, "operand-changed", "the operand");
    }
};

static std::unique_ptr<Seg> seg;
static void do_reset(const Op& op) { seg.reset(new Seg(op)); }
static void do_exec(const Op& op)
{
    if (seg)
    {
        seg->exec(op);
    }
}
static void do_finish() { seg.reset(); }

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    reset.a[1] = r.chance(60) ? r.range(20, 60) : r.range(60, thorough ? 320 : 160);
    out.push_back(reset);
    GenFaults gf;
    static const int all[] = {F_ALLOC, F_ALLOC_STICKY, F_ALLOC_SWEEP};
    if (r.chance(75))
    {
        gf.rate = (int)r.range(10, 60);
        for (int k : all)
        {
            if (r.chance(60))
            {
                gf.kinds.push_back(k);
            }
        }
        gf.maxbits = (int)r.range(1, PROP == 2 ? 9 : 6);
    }
    bool large = PROP == 1 && r.below(2000) == 0;
    if (large)
    {
        static const int lens[] = {300, 520, 700, 1030, 1500, 2050, 2800, 4200};
        reset.a[2] = lens[r.below(8)];
        reset.a[4] = r.chance(35);
        if (reset.a[4])
        {
            // so long that only what takes linear time, or has one short operand, is done
            static const int huge[] = {4300, 5300, 10050, 17000, 33000, 40000, 66000, 70000};
            reset.a[2] = huge[r.below(8)];
        }
        reset.a[3] = (i64)r.below(1 << 20);
        reset.a[1] = reset.a[2] + 30;
        out[0] = reset;
        gf.maxbits = 17;
        gf.kinds = {F_ALLOC};
        probe("long_numbers");
    }
    std::vector<int> ops;
    const int first = PROP == 2 ? op_sqrt : 1, last = PROP == 2 ? N_OPS : op_sqrt;
    for (int k = first; k < last; ++k)
    {
        if (r.chance(55))
        {
            ops.push_back(k);
        }
    }
    if (PROP == 1)
    {
        ops.push_back(op_parse);
        ops.push_back(op_near);
        ops.push_back(op_sub);
    }
    else
    {
        ops.push_back(op_sqrt);
        ops.push_back(op_parse);
    }
    if (large)
    {
        ops.push_back(op_mul);
        ops.push_back(op_near);
        Op op; // the two longest numbers, often all digits 9
        op.code = op_mul;
        op.a[1] = r.chance(50);
        op.a[2] = 2;
        out.push_back(op);
    }
    int len = large ? (int)r.range(3, 8) : (int)r.range(5, PROP == 2 ? 14 : thorough ? 60 : 35);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = ops[r.below(ops.size())];
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 20);
        }
        gf.apply(r, op);
        out.push_back(op);
    }
}

namespace sim
{
World world = {"int", names, N_OPS, "digest of (operation, outcome, injected fault, resulting value) over a whole history",
               "pyincpp::Int and std::vector, std::ostringstream underneath it", "allocator (operator new)",
               gen, do_reset, do_exec, do_finish, 200000000, PROP == 2 ? 30000 : 200000, 40000000};
}
