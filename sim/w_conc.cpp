// World: simulated threads using shared constant objects (PROP 18) or objects of their own (PROP 19).
#include "threads.hpp"
#include <algorithm>
#include <functional>
#include <iterator>
#include <memory>
#include <pyincpp.hpp>
#include <sstream>
#include <csignal>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

#ifndef PROP
#define PROP 18
#endif
using namespace sim;
using namespace pyincpp;
typedef std::string S;

#define OPS(X) \
    X(RESET) X(preempt) X(go) X(again) X(int_query) X(int_math) X(fraction) X(complex) X(str_query) X(str_make) X(list_int) X(list_str) X(list_big) X(deque_int) X(deque_str) X(set_int) X(set_str) X(dict_sx) X(dict_is) X(tuple) \
    X(int_edit) X(str_edit) X(number_edit) X(list_int_edit) X(list_str_edit) X(list_big_edit) X(deque_int_edit) X(deque_str_edit) X(set_int_edit) X(set_str_edit) X(dict_sx_edit) X(dict_is_edit) X(parse) X(statics)
enum Code
{
#define X(n) op_##n,
    OPS(X)
#undef X
        N_OPS
};
static const char* const names[] = {
#define X(n) #n,
    OPS(X)
#undef X
};
static const int FIRST_EDIT = op_int_edit;

// ---------------------------------------------------------------- rendering of results
static void put(S& log, bool v) { log += v ? "T " : "F "; }
static void put(S& log, int v) { log += std::to_string(v) + " "; }
static void put(S& log, long v) { log += std::to_string(v) + " "; }
static void put(S& log, size_t v) { log += std::to_string(v) + " "; }
static void put(S& log, double v)
{
    char b[40];
    snprintf(b, sizeof b, "%.17g ", v);
    log += b;
}
static void put(S& log, const char* s) { log += s; }
template <class T>
    requires requires(std::ostream& o, const T& t) { o << t; }
static void put(S& log, const T& v)
{
    std::ostringstream o;
    o << v;
    log += o.str() + " ";
}
static void put(S& log, const std::strong_ordering& o) { log += o < 0 ? "< " : o > 0 ? "> " : "= "; }

// ---------------------------------------------------------------- objects
typedef Tuple<Int, Str, int> Tup;
template <class T>
using P = std::unique_ptr<T>;
template <class T>
static P<T> copy_of(const P<T>& p)
{
    return p ? P<T>(new T(*p)) : nullptr;
}
enum Group { G_INT = 1, G_FRAC = 2, G_CPLX = 4, G_STR = 8, G_LI = 16, G_LS = 32, G_LX = 64, G_DI = 128, G_DS = 256, G_SI = 512, G_SS = 1024, G_MX = 2048, G_MT = 4096, G_TU = 8192 };

static S digits(Rng& r, bool large = false)
{
    int n = r.chance(12) ? 0 : r.chance(50) ? (int)r.range(1, 4) : (int)r.range(1, 26);
    if (large && r.chance(50))
    {
        n = r.chance(80) ? (int)r.range(20, 110) : (int)r.range(110, 300);
    }
    S s;
    while ((int)s.size() < n)
    {
        s += (char)('0' + (s.empty() ? r.range(1, 9) : r.range(0, 9)));
    }
    return s.empty() ? "0" : (r.chance(35) ? "-" : "") + s;
}
static S word(Rng& r, bool large = false)
{
    if (large && r.chance(50))
    {
        S s = word(r), piece = word(r) + ",";
        for (int n = r.chance(80) ? (int)r.below(300) : (int)r.below(1500); (int)s.size() < n;)
        {
            s += r.chance(90) ? piece : word(r);
        }
        return s;
    }
    static const char* const w[] = {"", "a", "Hello, World", " spaced  out ", "one, two, three", "abracadabra", "{} and {}", "-123.5e2", "ffff", "42", "a long string that lives on the heap, surely", "xyXYxy"};
    if (r.chance(30))
    {
        return r.chance(50) ? digits(r) : (r.chance(50) ? "-" : "") + S("12345678901234567890") + std::to_string(r.below(1000)); // literals
    }
    return w[r.below(12)];
}

struct Pool
{
    P<Int> x[3];
    P<Fraction> f[2];
    P<Complex> c[2];
    P<Str> t[3];
    P<List<int>> li[2];
    P<List<Str>> ls[2];
    P<List<Int>> lx;
    P<Deque<int>> di;
    P<Deque<Str>> ds;
    P<Set<int>> si[2];
    P<Set<Str>> ss;
    P<Dict<Str, Int>> mx[2];
    P<Dict<int, Str>> mt;
    P<Tup> tu;

    // only what the operations need is created, so that the first use of a type can be a concurrent one
    void build(u64 seed, int need)
    {
        Rng r(seed);
        const bool large = seed % 10 == 0; // objects of sizes at which an implementation may do something else
        if (large)
        {
            probe("large_objects");
        }
        for (int k = 0; k < 3; ++k)
        {
            S d = digits(r, large), w = word(r, large);
            if (need & G_INT)
            {
                x[k].reset(new Int(d.c_str()));
            }
            if (need & G_STR)
            {
                t[k].reset(new Str(w));
            }
        }
        for (int k = 0; k < 2; ++k)
        {
            const int n = !large ? (int)r.below(6) : r.chance(80) ? (int)r.range(6, 80) : (int)r.range(80, 400);
            std::vector<int> v(n + 6);
            std::vector<S> w(n + 6), d(n + 6);
            const int spread = n > 6 && r.chance(60) ? 2 * n : 9;
            for (int i = 0; i < n + 6; ++i)
            {
                v[i] = (int)r.range(-3, spread);
                w[i] = n > 6 && r.chance(60) ? "entry " + std::to_string(r.below(500)) : word(r);
                d[i] = digits(r);
            }
            if (need & G_FRAC)
            {
                f[k].reset(new Fraction(v[0], 1 + std::abs(v[1])));
            }
            if (need & G_CPLX)
            {
                c[k].reset(new Complex(v[2], v[3] + 0.5));
            }
            if (need & G_LI)
            {
                li[k].reset(new List<int>(&v[0], &v[0] + n));
            }
            if (need & G_LS)
            {
                ls[k].reset(new List<Str>);
                for (int i = 0; i < n; ++i)
                {
                    *ls[k] += Str(w[i]);
                }
            }
            if (need & G_SI)
            {
                si[k].reset(new Set<int>(&v[0], &v[0] + n));
            }
            if (need & G_MX)
            {
                mx[k].reset(new Dict<Str, Int>);
                for (int i = 0; i < n; ++i)
                {
                    mx[k]->add(Str(w[i]), Int(d[i].c_str()));
                }
            }
            if (k)
            {
                continue;
            }
            if (need & G_LX)
            {
                lx.reset(new List<Int>);
                for (int i = 0; i < n; ++i)
                {
                    *lx += Int(d[i].c_str());
                }
            }
            if (need & G_DI)
            {
                di.reset(new Deque<int>(&v[0], &v[0] + n));
            }
            if (need & G_DS)
            {
                ds.reset(new Deque<Str>);
                for (int i = 0; i < n; ++i)
                {
                    ds->push_back(Str(w[i]));
                }
            }
            if (need & G_SS)
            {
                ss.reset(new Set<Str>);
                for (int i = 0; i < n; ++i)
                {
                    ss->add(Str(w[i]));
                }
            }
            if (need & G_MT)
            {
                mt.reset(new Dict<int, Str>);
                for (int i = 0; i < n; ++i)
                {
                    mt->add(v[i], Str(w[i]));
                }
            }
            if (need & G_TU)
            {
                tu.reset(new Tup(Int(d[0].c_str()), Str(w[0]), v[0]));
            }
        }
    }
    Pool() = default;
    Pool(const Pool& p)
    {
        for (int k = 0; k < 3; ++k)
        {
            x[k] = copy_of(p.x[k]);
            t[k] = copy_of(p.t[k]);
        }
        for (int k = 0; k < 2; ++k)
        {
            f[k] = copy_of(p.f[k]);
            c[k] = copy_of(p.c[k]);
            li[k] = copy_of(p.li[k]);
            ls[k] = copy_of(p.ls[k]);
            si[k] = copy_of(p.si[k]);
            mx[k] = copy_of(p.mx[k]);
        }
        lx = copy_of(p.lx);
        di = copy_of(p.di);
        ds = copy_of(p.ds);
        ss = copy_of(p.ss);
        mt = copy_of(p.mt);
        tu = copy_of(p.tu);
    }
    S show() const
    {
        S s;
        for (int k = 0; k < 3; ++k)
        {
            if (x[k]) put(s, *x[k]);
            if (t[k]) put(s, *t[k]);
        }
        for (int k = 0; k < 2; ++k)
        {
            if (f[k]) put(s, *f[k]);
            if (c[k]) put(s, *c[k]);
            if (li[k]) put(s, *li[k]);
            if (ls[k]) put(s, *ls[k]);
            if (si[k]) put(s, *si[k]);
            if (mx[k]) put(s, *mx[k]);
        }
        if (lx) put(s, *lx);
        if (di) put(s, *di);
        if (ds) put(s, *ds);
        if (ss) put(s, *ss);
        if (mt) put(s, *mt);
        if (tu) put(s, *tu);
        return s;
    }
};

static int group_of(int code)
{
    switch (code)
    {
        case op_int_query:
        case op_int_math:
        case op_int_edit: return G_INT;
        case op_fraction: return G_FRAC;
        case op_complex: return G_CPLX;
        case op_number_edit: return G_FRAC | G_CPLX;
        case op_str_query:
        case op_str_make:
        case op_str_edit: return G_STR;
        case op_list_int:
        case op_list_int_edit: return G_LI;
        case op_list_str:
        case op_list_str_edit: return G_LS;
        case op_list_big:
        case op_list_big_edit: return G_LX;
        case op_deque_int:
        case op_deque_int_edit: return G_DI;
        case op_deque_str:
        case op_deque_str_edit: return G_DS;
        case op_set_int:
        case op_set_int_edit: return G_SI;
        case op_set_str:
        case op_set_str_edit: return G_SS;
        case op_dict_sx:
        case op_dict_sx_edit: return G_MX;
        case op_dict_is:
        case op_dict_is_edit: return G_MT;
        case op_tuple: return G_TU;
    }
    return 0;
}

// ---------------------------------------------------------------- const operations
template <class L>
static void seq_query(const L& a, const L& b, int sub, Rng& r, S& log)
{
    int n = a.size();
    switch (sub % 7)
    {
        case 0: put(log, a); break;
        case 1: put(log, n), put(log, a.is_empty()); break;
        case 2:
            if (n)
            {
                int i = (int)r.range(-n, n - 1);
                put(log, a[i]);
            }
            break;
        case 3:
            for (auto it = a.begin(); it != a.end(); ++it)
            {
                put(log, *it);
            }
            break;
        case 4:
            for (auto it = a.rbegin(); it != a.rend(); ++it)
            {
                put(log, *it);
            }
            break;
        case 5: put(log, a == b), put(log, a == a); break;
        default: {
            L copy(a);
            put(log, copy);
            copy = b;
            put(log, copy == b);
            break;
        }
    }
}
template <class L, class E>
static void list_query(const L& a, const L& b, const E& e, Rng& r, S& log)
{
    int n = a.size();
    switch (int sub = (int)r.below(19))
    {
        case 7: put(log, a.index(e)); break;
        case 8: put(log, a.count(e)); break;
        case 9: put(log, a.contains(e)), put(log, a.find(e) != a.end()); break;
        case 10:
            if (n)
            {
                static const int steps[] = {1, 1, 2, -1, -1, -2, 7};
                put(log, a.slice((int)r.range(-n, n - 1), (int)r.range(-n - 1, n), steps[r.below(7)]));
            }
            break;
        case 11: put(log, a + e); break;
        case 12: put(log, a + b); break;
        case 13: put(log, a - e); break;
        case 14: put(log, a / e); break;
        case 15: put(log, a * (int)r.below(4)); break;
        case 16: put(log, (a <=> b) < 0), put(log, (a <=> b) > 0); break;
        case 17: {
            L y(a);
            y += b;
            y += e;
            y.reverse();
            put(log, y);
            break;
        }
        case 18: put(log, a[n + 3]); break; // refused
        default: seq_query(a, b, sub, r, log); break;
    }
}
template <class D>
static void deque_query(const D& a, Rng& r, S& log)
{
    int sub = (int)r.below(11);
    switch (sub)
    {
        case 7: put(log, a.front()); break;
        case 8: put(log, a.back()); break;
        case 9: {
            D y(a);
            y <<= 1;
            y.reverse();
            put(log, y);
            break;
        }
        case 10: put(log, (a <=> a) == 0); break;
        default: seq_query(a, a, sub, r, log); break;
    }
}
template <class C, class E>
static void set_query(const C& a, const C& b, const E& e, Rng& r, S& log)
{
    switch (r.below(15))
    {
        case 0: put(log, a); break;
        case 1: put(log, a.size()), put(log, a.is_empty()); break;
        case 2: put(log, a.contains(e)); break;
        case 3: put(log, a.find(e) != a.end()); break;
        case 4: put(log, a.min()); break;
        case 5: put(log, a.max()); break;
        case 6: put(log, a & b); break;
        case 7: put(log, a | b); break;
        case 8: put(log, a - b); break;
        case 9: put(log, a ^ b); break;
        case 10: put(log, a == b), put(log, a < b), put(log, a <= b), put(log, a > b), put(log, a >= b); break;
        case 11:
            for (auto it = a.begin(); it != a.end(); ++it)
            {
                put(log, *it);
            }
            break;
        case 12:
            for (auto it = a.rbegin(); it != a.rend(); ++it)
            {
                put(log, *it);
            }
            break;
        default: {
            C y(a);
            y.add(e);
            y |= b;
            y.pop();
            put(log, y);
            break;
        }
    }
}
template <class D, class K, class V>
static void dict_query(const D& a, const D& b, const K& k, const V& v, Rng& r, S& log)
{
    switch (r.below(14))
    {
        case 0: put(log, a); break;
        case 1: put(log, a.size()), put(log, a.is_empty()); break;
        case 2: put(log, a.contains(k)); break;
        case 3: put(log, a.find(k) != a.end()); break;
        case 4: put(log, a.min()); break;
        case 5: put(log, a.max()); break;
        case 6: put(log, a[k]); break;
        case 7: put(log, a.get(k, v)); break;
        case 8: put(log, a.keys()); break;
        case 9: put(log, a.values()); break;
        case 10: put(log, a.items().size()); break;
        case 11: put(log, a == b); break;
        case 12:
            for (auto it = a.begin(); it != a.end(); ++it)
            {
                put(log, it->first), put(log, it->second);
            }
            break;
        default: {
            D y(a);
            y.add(k, v);
            y[k] = v;
            put(log, y);
            y.pop();
            put(log, y);
            break;
        }
    }
}

static void query(const Pool& p, const Op& op, S& log)
{
    Rng r(mix2(op.a[1], op.a[2]));
    switch (op.code)
    {
        case op_int_query: {
            const Int &a = *p.x[r.below(3)], &b = *p.x[r.below(3)];
            switch (r.below(14))
            {
                case 0: put(log, a); break;
                case 1: put(log, a == b); break;
                case 2: put(log, (a <=> b) < 0), put(log, a < b), put(log, a >= b); break;
                case 3: put(log, a.digits()); break;
                case 4: put(log, a.is_zero()), put(log, a.is_positive()), put(log, a.is_negative()); break;
                case 5: put(log, a.is_even()), put(log, a.is_odd()); break;
                case 6:
                    if (a < 5000)
                    {
                        put(log, a.is_prime());
                    }
                    break;
                case 7: put(log, a.to_integer<unsigned long>()); break;
                case 8: put(log, std::hash<Int>{}(a)); break;
                case 9: put(log, +a), put(log, -a), put(log, a.abs()); break;
                case 10: {
                    Int y(a);
                    y += b;
                    put(log, y);
                    break;
                }
                case 11: {
                    Int y;
                    y = a;
                    ++y;
                    put(log, y);
                    break;
                }
                case 12: put(log, a.digits()), put(log, a), put(log, a == 0); break;
                default: put(log, a * b - b * a == 0); break;
            }
            break;
        }
        case op_int_math: {
            const Int &a = *p.x[r.below(3)], &b = *p.x[r.below(3)];
            switch (r.below(a.digits() + b.digits() > 100 ? 4 : 13)) // long numbers: nothing that takes quadratic time again and again
            {
                case 0: put(log, a + b); break;
                case 1: put(log, a - b); break;
                case 2: put(log, a * b); break;
                case 3: put(log, a / b); break;
                case 4: put(log, a % b); break;
                case 5: put(log, Int::gcd(a, b)); break;
                case 6: put(log, Int::lcm(a, b)); break;
                case 7: put(log, Int::sqrt(a)); break;
                case 8: put(log, Int::pow(a, (int)r.below(4))); break;
                case 9: put(log, Int::pow(a, (int)r.below(9), 97)); break;
                case 10:
                    if (a < 12)
                    {
                        put(log, a.factorial());
                    }
                    break;
                case 11:
                    if (a < 500)
                    {
                        put(log, a.next_prime());
                    }
                    break;
                default: put(log, Int::log(a, 10)); break;
            }
            break;
        }
        case op_fraction: {
            const Fraction &a = *p.f[r.below(2)], &b = *p.f[r.below(2)];
            switch (r.below(9))
            {
                case 0: put(log, a); break;
                case 1: put(log, a == b), put(log, (a <=> b) < 0); break;
                case 2: put(log, (double)a); break;
                case 3: put(log, a.numerator()), put(log, a.denominator()); break;
                case 4: put(log, a + b), put(log, a - b), put(log, a * b); break;
                case 5: put(log, a / b); break;
                case 6: put(log, a % b); break;
                case 7: put(log, Fraction::gcd(a, b)), put(log, Fraction::lcm(a, b)); break;
                default: put(log, std::hash<Fraction>{}(a)), put(log, -a), put(log, a.abs()); break;
            }
            break;
        }
        case op_complex: {
            const Complex &a = *p.c[r.below(2)], &b = *p.c[r.below(2)];
            switch (r.below(7))
            {
                case 0: put(log, a); break;
                case 1: put(log, a == b); break;
                case 2: put(log, a.real()), put(log, a.imag()), put(log, a.abs()), put(log, a.arg()); break;
                case 3: put(log, a + b), put(log, a - b), put(log, a * b); break;
                case 4: put(log, a / b); break;
                case 5: put(log, Complex::pow(a, 2)); break;
                default: put(log, a.conjugate()), put(log, -a), put(log, std::hash<Complex>{}(a)); break;
            }
            break;
        }
        case op_str_query: {
            const Str &a = *p.t[r.below(3)], &b = *p.t[r.below(3)];
            switch (r.below(13))
            {
                case 0: put(log, a); break;
                case 1: put(log, a.size()), put(log, a.is_empty()); break;
                case 2: put(log, a.data()); break;
                case 3: put(log, a == b), put(log, a < b); break;
                case 4: put(log, a.find(b)); break;
                case 5: put(log, a.contains(b)); break;
                case 6: put(log, b.is_empty() ? 0 : a.count(b)); break;
                case 7: put(log, a.starts_with(b)), put(log, a.ends_with(b)); break;
                case 8: put(log, a.to_decimal()); break;
                case 9: put(log, a.to_integer(r.chance(50) ? 10 : 16)); break;
                case 10: put(log, std::hash<Str>{}(a)); break;
                case 11:
                    for (char ch : a)
                    {
                        put(log, (int)ch);
                    }
                    break;
                default: put(log, (int)a[(int)r.range(-3, 3)]); break;
            }
            break;
        }
        case op_str_make: {
            const Str &a = *p.t[r.below(3)], &b = *p.t[r.below(3)];
            int n = a.size();
            switch (r.below(17))
            {
                case 0: put(log, a + b); break;
                case 1: put(log, a * (int)r.below(4)); break;
                case 2: put(log, a.reverse()); break;
                case 3: put(log, a.lower()); break;
                case 4: put(log, a.upper()); break;
                case 5: put(log, a.strip()); break;
                case 6: put(log, a.strip('a')); break;
                case 7: put(log, a >> 2), put(log, a << 1); break;
                case 8: put(log, a.replace(b, Str("<>"))); break;
                case 9: put(log, a.split(b.is_empty() ? Str(" ") : b)); break;
                case 10: put(log, a.split(Str(" "), true)); break;
                case 11: put(log, a.join({Str("x"), b, Str("z")})); break;
                case 12: put(log, a.format(b, 42)); break;
                case 13:
                    if (n)
                    {
                        static const int steps[] = {1, 1, 2, -1, -1, -2, 7};
                        put(log, a.slice((int)r.range(-n, n - 1), (int)r.range(-n - 1, n), steps[r.below(7)]));
                    }
                    break;
                case 14:
                    if (n)
                    {
                        int i = (int)r.below(n);
                        put(log, a.erase(i, i + (int)r.below(n - i)));
                    }
                    break;
                case 15: {
                    Str y(a);
                    y = y + 'c';
                    put(log, y);
                    break;
                }
                default: put(log, a + 'x'); break;
            }
            break;
        }
        case op_list_int: list_query(*p.li[0], *p.li[r.below(2)], (int)r.range(-3, 9), r, log); break;
        case op_list_str: list_query(*p.ls[0], *p.ls[r.below(2)], Str(word(r)), r, log); break;
        case op_list_big: list_query(*p.lx, *p.lx, Int(digits(r).c_str()), r, log); break;
        case op_deque_int: deque_query(*p.di, r, log); break;
        case op_deque_str: deque_query(*p.ds, r, log); break;
        case op_set_int: set_query(*p.si[0], *p.si[r.below(2)], (int)r.range(-3, 9), r, log); break;
        case op_set_str: set_query(*p.ss, *p.ss, Str(word(r)), r, log); break;
        case op_dict_sx: dict_query(*p.mx[0], *p.mx[r.below(2)], Str(word(r)), Int(digits(r).c_str()), r, log); break;
        case op_dict_is: dict_query(*p.mt, *p.mt, (int)r.range(-3, 9), Str(word(r)), r, log); break;
        case op_tuple: {
            const Tup& a = *p.tu;
            switch (r.below(4))
            {
                case 0: put(log, a); break;
                case 1: put(log, a == a), put(log, a != a), put(log, a.size()); break;
                case 2: put(log, a.get<0>()), put(log, a.get<1>()), put(log, a.get<2>()); break;
                default: {
                    Tup y(a);
                    put(log, y), put(log, y.rest());
                    break;
                }
            }
            break;
        }
    }
}

#if PROP == 19
// long random integers drawn by each thread in the current phase, one per line, in memory of its own
static S* drawn;
static void lines_of(const S& text, std::vector<S>& out)
{
    for (size_t i = 0, j; (j = text.find('\n', i)) != S::npos; i = j + 1)
    {
        out.push_back(text.substr(i, j - i));
    }
}
// ---------------------------------------------------------------- edits of own objects
template <class L, class E>
static void list_edit(L& a, L& b, const E& e, Rng& r, S& log)
{
    int n = a.size();
    switch (r.below(17))
    {
        case 0: a += e; break;
        case 1: a.insert((int)r.below(n + 1), e); break;
        case 2:
            if (n)
            {
                put(log, a.remove((int)r.below(n)));
            }
            break;
        case 3: a -= e; break;
        case 4: a /= e; break;
        case 5:
            if (n < 20)
            {
                a *= 2;
            }
            break;
        case 6: a >>= 1; break;
        case 7: a <<= 2; break;
        case 8: a.reverse(); break;
        case 9: a.uniquify(); break;
        case 10: a.sort(); break;
        case 11: a.clear(); break;
        case 12: a.extend(b.begin(), b.end()); break;
        case 13: a = b; break;
        case 14: a.filter([&](const E& x) { return !(x == e); }); break;
        case 15: std::swap(a, b); break;
        default:
            if (n)
            {
                a[(int)r.below(n)] = e;
            }
            break;
    }
    if (a.size() > 40)
    {
        a.clear();
    }
    put(log, a);
}
template <class D, class E>
static void deque_edit(D& a, const E& e, Rng& r, S& log)
{
    switch (r.below(10))
    {
        case 0: a.push_back(e); break;
        case 1: a.push_front(e); break;
        case 2: put(log, a.pop_back()); break;
        case 3: put(log, a.pop_front()); break;
        case 4: a >>= 1; break;
        case 5: a <<= 2; break;
        case 6: a.reverse(); break;
        case 7: a.extend_back(&e, &e + 1); break;
        case 8: a.extend_front(&e, &e + 1); break;
        default: a.front() = e; break;
    }
    put(log, a);
}
template <class C, class E>
static void set_edit(C& a, C& b, const E& e, Rng& r, S& log)
{
    switch (r.below(9))
    {
        case 0:
        case 1: put(log, a.add(e)); break;
        case 2: put(log, a.remove(e)); break;
        case 3: put(log, a.pop()); break;
        case 4: a |= b; break;
        case 5: a -= b; break;
        case 6: a ^= b; break;
        case 7: a.extend(&e, &e + 1); break;
        default: a &= b; break;
    }
    put(log, a);
}
template <class D, class K, class V>
static void dict_edit(D& a, D& b, const K& k, const V& v, Rng& r, S& log)
{
    switch (r.below(7))
    {
        case 0:
        case 1: put(log, a.add(k, v)); break;
        case 2: put(log, a.remove(k)); break;
        case 3: a[k] = v; break;
        case 4: {
            auto e = a.pop();
            put(log, e.first), put(log, e.second);
            break;
        }
        case 5: a = b; break;
        default: a.extend(b.begin(), b.end()); break;
    }
    put(log, a);
}
static void edit(Pool& p, const Op& op, S& log)
{
    Rng r(mix2(op.a[1], op.a[2]));
    switch (op.code)
    {
        case op_int_edit: {
            Int &a = *p.x[r.below(3)], &b = *p.x[r.below(3)];
            switch (r.below(9))
            {
                case 0: a += b; break;
                case 1: a -= b; break;
                case 2:
                    if (a.digits() + b.digits() < 200)
                    {
                        a *= b;
                    }
                    break;
                case 3: a /= b; break;
                case 4: a %= b; break;
                case 5: ++a; break;
                case 6: --a; break;
                case 7: a = b; break;
                default: std::swap(a, b); break;
            }
            put(log, a), put(log, b);
            break;
        }
        case op_str_edit: {
            Str &a = *p.t[r.below(3)], &b = *p.t[r.below(3)];
            switch (r.below(5))
            {
                case 0: a = a.size() < 1500 ? a + b : Str(); break;
                case 1: a = a.upper(); break;
                case 2: a = b; break;
                case 3: std::swap(a, b); break;
                default: a = a.replace(Str("a"), Str("bb")).size() < 2000 ? a.replace(Str("a"), Str("bb")) : Str(); break;
            }
            put(log, a), put(log, b);
            break;
        }
        case op_number_edit: {
            Fraction &a = *p.f[0], &b = *p.f[1];
            Complex &c = *p.c[0], &d = *p.c[1];
            switch (r.below(7))
            {
                case 0: a += b, a = a.denominator() > 500 || std::abs(a.numerator()) > 500 ? Fraction(1, 3) : a; break;
                case 1: a *= b, a = a.denominator() > 500 || std::abs(a.numerator()) > 500 ? Fraction(1, 3) : a; break;
                case 2: a = b; break;
                case 3: c += d; break;
                case 4: c *= d, c = c.abs() > 1e9 ? Complex(1, 1) : c; break;
                case 5: c = d; break;
                default: std::swap(a, b), std::swap(c, d); break;
            }
            put(log, a), put(log, c);
            break;
        }
        case op_list_int_edit: list_edit(*p.li[0], *p.li[1], (int)r.range(-3, 9), r, log); break;
        case op_list_str_edit: list_edit(*p.ls[0], *p.ls[1], Str(word(r)), r, log); break;
        case op_list_big_edit: {
            List<Int> other(*p.lx);
            list_edit(*p.lx, other, Int(digits(r).c_str()), r, log);
            break;
        }
        case op_deque_int_edit: deque_edit(*p.di, (int)r.range(-3, 9), r, log); break;
        case op_deque_str_edit: deque_edit(*p.ds, Str(word(r)), r, log); break;
        case op_set_int_edit: set_edit(*p.si[0], *p.si[1], (int)r.range(-3, 9), r, log); break;
        case op_set_str_edit: {
            Set<Str> other{Str("a"), Str("xyz")};
            set_edit(*p.ss, other, Str(word(r)), r, log);
            break;
        }
        case op_dict_sx_edit: dict_edit(*p.mx[0], *p.mx[1], Str(word(r)), Int(digits(r).c_str()), r, log); break;
        case op_dict_is_edit: {
            Dict<int, Str> other{{1, "one"}, {2, "two"}};
            dict_edit(*p.mt, other, (int)r.range(-3, 9), Str(word(r)), r, log);
            break;
        }
        case op_parse: {
            S text;
            int which = (int)r.below(5), n = (int)r.range(1, 3);
            for (int i = 0; i < n; ++i)
            {
                text += which == 0 ? digits(r) : which == 1 ? std::to_string(r.range(-9, 9)) + "/" + std::to_string(r.range(1, 9)) : which == 2 ? std::to_string(r.range(-9, 9)) + "+" + std::to_string(r.range(1, 9)) + "j" : word(r);
                text += which == 3 ? "\n" : " ";
            }
            std::istringstream is(text);
            Int x;
            Fraction f;
            Complex c;
            Str t;
            for (int i = 0; i < n; ++i)
            {
                switch (which)
                {
                    case 0: is >> x, put(log, x); break;
                    case 1: is >> f, put(log, f); break;
                    case 2: is >> c, put(log, c); break;
                    case 3: is >> t, put(log, t); break;
                    default: put(log, Int(digits(r).c_str())); break;
                }
            }
            break;
        }
        case op_statics: {
            switch (r.below(8))
            {
                case 0:
                case 1: {
                    int d = (int)r.range(0, 40);
                    Int x = Int::random(d);
                    put(log, x.digits()), put(log, x.is_negative());
                    S s;
                    put(s, x);
                    put(log, s.size());
                    if (d >= 20 && drawn[op.a[0]].size() + 64 < drawn[op.a[0]].capacity())
                    {
                        drawn[op.a[0]] += s;
                        drawn[op.a[0]] += '\n';
                    }
                    break;
                }
                case 2: put(log, Int::pow((int)r.range(-5, 9), (int)r.below(12))); break;
                case 3: put(log, Int::gcd((int)r.range(-500, 500), (int)r.range(1, 400))); break;
                case 4: put(log, Int::sqrt((int)r.below(100000))); break;
                case 5: put(log, Fraction::gcd(Fraction(3, 4), Fraction((int)r.range(1, 9), 7))); break;
                case 6: put(log, Complex::pow(Complex(1, (int)r.below(5)), Complex(2, 1))); break;
                default: put(log, Int((int)r.below(12)).factorial()), put(log, Int((int)r.below(200)).next_prime()); break;
            }
            break;
        }
        default: query(p, op, log); break;
    }
}
#endif

// ---------------------------------------------------------------- programs
struct Result
{
    S log;
    int kind = OK;
    bool fired = false;
};
static std::vector<Op>* programs;      // per thread
static std::vector<Result>* results;   // of the current phase, per thread
static Plan* plans;
static P<Pool>* pools;                 // PROP 19: one each; PROP 18: pools[0] shared
static u64 pool_seed = 0;
static int need = 0;

static bool with_faults = true;

static void run_program(int t)
{
    auto& prog = programs[t];
    auto& res = results[t];
    Pool& pool = *pools[PROP == 18 ? 0 : t];
    for (size_t i = 0; i < prog.size(); ++i)
    {
        thread_op((int)i, prog[i]);
        if (with_faults)
        {
            arm(prog[i].fk, prog[i].fn);
        }
        Result& out = res[i];
        Outcome o = sut_armed([&] {
#if PROP == 18
            query(pool, prog[i], out.log);
#else
            edit(pool, prog[i], out.log);
#endif
        });
        disarm();
        thread_op_done();
        out.kind = o.k;
        out.fired = o.fired;
        if (o.k != OK && o.k != RTE && !(o.k == BADALLOC && o.fired))
        {
            fail("unexpected-exception", "thread %d, operation %zu %s: %s %s", t, i, names[prog[i].code], kind_names[o.k], o.what.c_str());
        }
        if (o.k == RTE)
        {
            out.log += "throws " + o.what;
        }
    }
    res[prog.size()].kind = OK;
}

static int n_threads = 0;
static S shown_after;
static void phase(bool concurrent, u64 seed, i64 quantum, std::vector<std::vector<Result>>& out)
{
    std::vector<Result> res[MAX_THREADS];
    P<Pool> own[MAX_THREADS];
    results = res;
    pools = own;
#if PROP == 19
    for (int t = 0; t < MAX_THREADS; ++t)
    {
        drawn[t].clear();
    }
#endif
    must("construction", [&] {
        P<Pool> original(new Pool);
        original->build(pool_seed, need);
        for (int t = 0; t < n_threads; ++t)
        {
            if (PROP == 19)
            {
                own[t].reset(new Pool(*original)); // copies of common originals
            }
        }
        if (PROP == 18)
        {
            own[0] = std::move(original);
        } });
    for (int t = 0; t < n_threads; ++t)
    {
        res[t].resize(programs[t].size() + 1);
        for (auto& x : res[t])
        {
            x.log.reserve(256);
        }
    }
    if (concurrent)
    {
        RunInfo info = run_threads(n_threads, run_program, plans, seed, quantum);
        st.steps_total += info.accesses;
        st.faults_in_segment += info.switches > (u64)n_threads;
        probe("accesses", info.accesses);
        probe("switches", info.switches);
        probe("synchronisations", info.syncs);
    }
    else
    {
        for (int t = 0; t < n_threads; ++t)
        {
            run_program(t);
        }
    }
    disarm();
    // what the objects hold in the end
    must("inspection", [&] {
        for (int t = 0; t < n_threads; ++t)
        {
            if (own[t])
            {
                res[t].back().log = own[t]->show();
            }
        } });
    for (int t = 0; t < n_threads; ++t)
    {
        out.push_back(std::move(res[t]));
    }
    must("destruction", [&] {
        for (auto& p : own)
        {
            p.reset();
        } });
}

// Runs a phase in a child process and brings its results here: nothing that happened in this process since,
// and no fault, can have touched what the child's library keeps in static storage.
typedef std::vector<std::vector<Result>> Results;
static char* shared_text;
static const size_t SHARED_SIZE = 1 << 20;
static bool in_child_process(bool concurrent, u64 seed, i64 quantum, u64 entropy, Results& out, std::vector<S>& random)
{
    pid_t pid = fork();
    if (pid < 0)
    {
        perror("fork");
        _exit(2);
    }
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(150);
        entropy_of(entropy);
        with_faults = false;
        Results res;
        phase(concurrent, seed, quantum, res);
        S text;
        auto add = [&](const S& s) {
            uint32_t n = (uint32_t)s.size();
            text.append((const char*)&n, 4);
            text += s;
        };
        for (auto& r : res)
        {
            for (auto& x : r)
            {
                add(x.log);
                add(S(1, (char)x.kind));
            }
        }
#if PROP == 19
        for (int t = 0; t < MAX_THREADS; ++t)
        {
            std::vector<S> l;
            lines_of(drawn[t], l);
            for (auto& s : l)
            {
                add(s);
            }
        }
#endif
        uint32_t n = text.size() + 4 <= SHARED_SIZE ? (uint32_t)text.size() : ~0u;
        memcpy(shared_text, &n, 4);
        if (n != ~0u)
        {
            memcpy(shared_text + 4, text.data(), n);
        }
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(status))
    {
        signal(WTERMSIG(status), SIG_DFL);
        raise(WTERMSIG(status));
        _exit(4);
    }
    if (WEXITSTATUS(status) != 0)
    {
        _exit(WEXITSTATUS(status)); // the violation is described in shared memory
    }
    uint32_t n;
    memcpy(&n, shared_text, 4);
    if (n == ~0u)
    {
        return false;
    }
    const char *p = shared_text + 4, *end = p + n;
    auto get = [&] {
        uint32_t k;
        memcpy(&k, p, 4);
        S s(p + 4, k);
        p += 4 + k;
        return s;
    };
    out.clear();
    for (int t = 0; t < n_threads; ++t)
    {
        out.emplace_back(programs[t].size() + 1);
        for (auto& x : out.back())
        {
            x.log = get();
            x.kind = (unsigned char)get()[0];
        }
    }
    random.clear();
    while (p < end)
    {
        random.push_back(get());
    }
    return true;
}

static void compare(const char* when, const Results& got, const Results& alone, bool faults)
{
    for (int t = 0; t < n_threads; ++t)
    {
        bool diverged = false;
        for (size_t i = 0; i < got[t].size(); ++i)
        {
            auto &a = got[t][i], &b = alone[t][i];
            bool last = i + 1 == got[t].size();
            if (faults && a.fired)
            {
                diverged = PROP == 19; // a failed edit may leave another state
                continue;
            }
            if (diverged)
            {
                continue;
            }
            if (a.kind != b.kind || a.log != b.log)
            {
                fail(last ? "object-changed" : "result-differs", "thread %d, %s %zu %s, %s: %s, alone it is %s", t, last ? "the objects after operation" : "operation", i, last ? "" : names[programs[t][i].code], when, show(a.log).c_str(), show(b.log).c_str());
            }
        }
    }
}

static Results* reference;
static void go(const Op& op)
{
    n_threads = 0;
    need = 0;
    for (int t = 0; t < MAX_THREADS; ++t)
    {
        for (auto& o : programs[t])
        {
            need |= group_of(o.code);
            n_threads = t + 1;
        }
    }
    if (!n_threads)
    {
        return;
    }
    bool repeat = op.code == op_again; // the same programs once more, in the process as the previous round left it
    if (repeat && (int)reference->size() != n_threads)
    {
        return;
    }
    Results together, after;
    std::vector<S> random;
    if (!repeat && !in_child_process(false, 0, 0, 1, *reference, random))
    {
        reference->clear();
        return;
    }
    // in this process the concurrent run comes first: nothing the library initialises lazily has been used before
    entropy_of(2);
    with_faults = !repeat;
    phase(true, mix2(op.a[0], 5), op.a[1], together);
    with_faults = true;
    for (auto& r : *reference)
    {
        for (auto& x : r)
        {
            note(hash_str(x.log));
        }
    }
    compare("next to the other threads", together, *reference, !repeat);
#if PROP == 19
    std::vector<S> mine;
    for (int t = 0; t < n_threads; ++t)
    {
        lines_of(drawn[t], mine);
    }
    std::sort(mine.begin(), mine.end());
    auto twice = std::adjacent_find(mine.begin(), mine.end());
    if (twice != mine.end())
    {
        fail("not-random", "two calls of Int::random returned %s", show(*twice).c_str());
    }
    if (!mine.empty() && !repeat)
    {
        // the same schedule with other words from the entropy device: no long random integer may come again
        Results ignored;
        if (in_child_process(true, mix2(op.a[0], 5), op.a[1], 3, ignored, random))
        {
            for (auto& s : random)
            {
                if (std::binary_search(mine.begin(), mine.end(), s))
                {
                    fail("not-random", "Int::random returned %s whatever the entropy device delivered", show(s).c_str());
                }
            }
        }
    }
#endif
    with_faults = false;
    phase(false, 0, 0, after);
    with_faults = true;
    compare("afterwards", after, *reference, false);
}

static void forget()
{
    for (int t = 0; t < MAX_THREADS; ++t)
    {
        programs[t].clear();
        plans[t].preempts.clear();
    }
    reference->clear();
}

static bool fresh_round = false; // the next operation starts another set of programs
static void do_reset(const Op& op)
{
    static bool once = false;
    if (!once)
    {
        once = true;
        programs = new std::vector<Op>[MAX_THREADS];
        plans = new Plan[MAX_THREADS];
        reference = new Results;
        shared_text = (char*)mmap(nullptr, SHARED_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#if PROP == 19
        drawn = new S[MAX_THREADS];
        for (int t = 0; t < MAX_THREADS; ++t)
        {
            drawn[t].reserve(8192);
        }
#endif
    }
    forget();
    fresh_round = false;
    pool_seed = (u64)op.a[0];
}
static void do_exec(const Op& op)
{
    int t = (int)((u64)op.a[0] % MAX_THREADS);
    if (op.code == op_go || op.code == op_again)
    {
        go(op);
        fresh_round = true;
        return;
    }
    if (fresh_round)
    {
        forget();
        fresh_round = false;
    }
    switch (op.code)
    {
        case op_preempt:
            plans[t].preempts.push_back({(int)op.a[1], op.a[2], (int)op.a[3]});
            break;
        default:
            programs[t].push_back(op);
            break;
    }
}
static void do_finish() {}

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    reset.a[0] = (i64)r.below(1 << 30);
    out.push_back(reset);
    // few kinds of operations, so that threads meet on the same objects
    std::vector<int> kinds;
    int lo = op_int_query, hi = PROP == 18 ? FIRST_EDIT - 1 : N_OPS - 1;
    int nk = r.chance(30) ? 1 : (int)r.range(1, 5);
    for (int k = 0; k < nk; ++k)
    {
        kinds.push_back((int)r.range(lo, hi));
    }
    int runs = r.chance(70) ? 1 : 2;
    for (int g = 0; g < runs; ++g)
    {
        int n = r.chance(60) ? 2 : (int)r.range(2, MAX_THREADS);
        int len = (int)r.range(1, thorough ? 14 : 7);
        int same = r.chance(25) ? (int)r.range(1, 3) : 0; // the threads run the same program
        std::vector<Op> first;
        // one operation over and over, its allocations failing one after the other in the first thread
        bool sweep = r.chance(PROP == 18 ? 25 : 10);
        if (sweep)
        {
            n = 2;
            len = (int)r.range(3, 12);
        }
        bool faults = sweep || PROP == 18 ? r.chance(25) : r.chance(15);
        for (int t = 0; t < n; ++t)
        {
            for (int k = 0; k < len; ++k)
            {
                Op op;
                op.code = kinds[r.below(kinds.size())];
                for (auto& a : op.a)
                {
                    a = (i64)r.below(1 << 20);
                }
                if (same && t && k < (int)first.size())
                {
                    op = first[k];
                }
                if (sweep && !first.empty())
                {
                    op = first[0];
                    op.fk = F_NONE;
                }
                op.a[0] = t;
                if (sweep && t == 0)
                {
                    op.fk = F_ALLOC;
                    op.fn = k + 1;
                }
                else if (faults && !sweep && r.chance(20))
                {
                    op.fk = F_ALLOC;
                    op.fn = r.logu(r.chance(70) ? 4 : 7);
                }
                out.push_back(op);
                if (t == 0)
                {
                    first.push_back(op);
                }
            }
        }
        int np = (int)r.below(7);
        for (int k = 0; k < np; ++k)
        {
            Op op;
            op.code = op_preempt;
            op.a[0] = (i64)r.below(n);
            op.a[1] = (i64)r.below(len);
            op.a[2] = r.logu((int)r.range(2, 13));
            op.a[3] = (i64)r.below(n);
            out.push_back(op);
        }
        Op op;
        op.code = op_go;
        op.a[0] = (i64)r.below(1 << 20);
        op.a[1] = r.chance(30) ? r.logu(9) + 3 : 0;
        out.push_back(op);
        if (r.chance(faults ? 60 : 10))
        {
            op.code = op_again;
            op.a[0] = (i64)r.below(1 << 20);
            out.push_back(op);
        }
    }
}

namespace sim
{
World world = {"conc", names, N_OPS, "digest of every context switch (thread, operation, memory access at which it happened) and of all results of a run",
               "all types of the library, on real threads run one at a time", "thread scheduler, mutexes, once-initialisation and atomics (simulated), allocator, entropy device",
               gen, do_reset, do_exec, do_finish, 30000000, 40000, 20000000};
}
