// World: values reached along different histories, with failures, must compare and hash by what they are (C25: equal
// values hash equally; C26: the comparison operators agree with one order).
#include "elem.hpp"
#include <algorithm>
#include <boost/multiprecision/cpp_int.hpp>
#include <cstdlib>
#include <memory>
#include <numeric>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

using namespace sim;
using namespace pyincpp;
typedef boost::multiprecision::cpp_int Ref;

enum Code { op_RESET, op_int, op_str, op_fraction, op_complex, op_list, op_deque, op_elems, op_relate, op_sorted, N_OPS };
static const char* const names[] = {"RESET", "Int", "Str", "Fraction", "Complex", "List<Int>", "Deque<Str>", "List<Elem>", "relate", "sorted"};

struct Rat // in lowest terms, d > 0
{
    i64 n = 0, d = 1;
    bool operator==(const Rat&) const = default;
    bool operator<(const Rat& o) const { return (__int128)n * o.d < (__int128)o.n * d; }
};
struct Bytes // ordered byte by byte
{
    std::string s;
    bool operator==(const Bytes& o) const { return s.size() == o.s.size() && memcmp(s.data(), o.s.data(), s.size()) == 0; }
    bool operator<(const Bytes& o) const
    {
        for (size_t i = 0; i < s.size() && i < o.s.size(); ++i)
        {
            if (s[i] != o.s[i])
            {
                return (unsigned char)s[i] < (unsigned char)o.s[i];
            }
        }
        return s.size() < o.s.size();
    }
};
struct Cx
{
    double r = 0, i = 0;
    bool operator==(const Cx& o) const { return r == o.r && i == o.i; }
};
template <class M>
static bool seq_less(const std::vector<M>& a, const std::vector<M>& b)
{
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    {
        if (a[i] < b[i])
        {
            return true;
        }
        if (b[i] < a[i])
        {
            return false;
        }
    }
    return a.size() < b.size();
}
static bool less(const Ref& a, const Ref& b) { return a < b; }
static bool less(const Rat& a, const Rat& b) { return a < b; }
static bool less(const Bytes& a, const Bytes& b) { return a < b; }
static bool less(i64 a, i64 b) { return a < b; }
template <class M>
static bool less(const std::vector<M>& a, const std::vector<M>& b) { return seq_less(a, b); }

template <class T>
static std::string text(const T& t)
{
    std::ostringstream o;
    o << t;
    return o.str();
}

struct Seg
{
    static const int N = 5;
    Int x[N];
    Ref mx[N];
    Str s[N];
    Bytes ms[N];
    Fraction f[N];
    Rat mf[N];
    Complex c[N];
    Cx mc[N];
    List<Int> l[N];
    std::vector<Ref> ml[N];
    Deque<Str> d[N];
    std::vector<Bytes> md[N];
    List<Elem> e[N];
    std::vector<i64> me[N];

    static int norm(i64 raw, i64 n) { return (int)((u64)raw % n); }

    // ---- the values actually held, read through printing and iteration
    static Ref read(const Int& v)
    {
        std::string t = text(v);
        return Ref(t);
    }
    static Bytes read(const Str& v) { return Bytes{std::string(v.data(), v.size())}; }
    static Rat value(i64 n, i64 d) // whatever terms it is held in
    {
        const i64 g = std::gcd(n, d) * (d < 0 ? -1 : 1);
        return g ? Rat{n / g, d / g} : Rat{n, d};
    }
    void resync(int i)
    {
        must("inspection", [&] {
            mx[i] = read(x[i]);
            ms[i] = read(s[i]);
            mf[i] = value(f[i].numerator(), f[i].denominator());
            mc[i] = Cx{c[i].real(), c[i].imag()};
            ml[i].clear();
            for (auto& v : l[i])
            {
                ml[i].push_back(read(v));
            }
            md[i].clear();
            for (auto& v : d[i])
            {
                md[i].push_back(read(v));
            }
            Out out;
            me[i].clear();
            for (auto& v : e[i])
            {
                me[i].push_back(v.v());
            } });
    }
    // runs the operation; whatever happened, the models of i and j are what the objects hold
    void go(int i, int j, FRef fun)
    {
        Outcome o = run_op(fun, [&](const Outcome&) {
            resync(i);
            resync(j);
            return RETRY; });
        if (o.k == OTHER || o.k == LENGTH)
        {
            fail("unexpected-exception", "%s: %s", names[cur_op->code], o.what.c_str());
        }
        resync(i);
        resync(j);
        compare(i, j);
        compare(i, (i + 1) % N);
        compare(i, i);
    }

    // ---- the properties
    template <class T, class M>
    void relate(const T& a, const T& b, const M& ma, const M& mb)
    {
        const bool eq = ma == mb;
        struct
        {
            bool eq, ne, qe;
            size_t ha, hb;
            bool lt, le, gt, ge;
            int way;
        } g = {};
        Outcome o = run_op([&] {
#if PROP == 25
            g.eq = a == b;
            g.qe = b == a;
            if constexpr (requires { std::hash<T>{}(a); })
            {
                g.ha = std::hash<T>{}(a);
                g.hb = std::hash<T>{}(b);
            }
#else
            g.eq = a == b;
            g.ne = a != b;
            g.lt = a < b;
            g.le = a <= b;
            g.gt = a > b;
            g.ge = a >= b;
            auto w = a <=> b;
            g.way = w < 0 ? -1 : w > 0;
#endif
        },
                           [](const Outcome&) { return RETRY; });
        if (!o.ok())
        {
            fail("unexpected-exception", "a comparison failed: %s", o.what.c_str());
        }
        Out out;
#if PROP == 25
        if (eq && (!g.eq || !g.qe))
        {
            fail("equal-values-differ", "two objects that hold %s do not compare equal", text(a).substr(0, 300).c_str());
        }
        if ((eq || (g.eq && !std::is_same_v<T, Complex>)) && g.ha != g.hb) // Complex: see do_reset
        {
            fail("equal-values-hash", "two equal objects that hold %s and %s hash to %zx and %zx", text(a).substr(0, 200).c_str(), text(b).substr(0, 200).c_str(), g.ha, g.hb);
        }
        if (eq && &a != &b)
        {
            probe("equal_pairs_hashed");
        }
#else
        const bool lt = less(ma, mb), gt = less(mb, ma);
        if (g.eq != eq || g.ne == eq)
        {
            fail("equality", "%s %s %s", text(a).substr(0, 200).c_str(), g.eq ? "==" : "!=", text(b).substr(0, 200).c_str());
        }
        if (g.lt != lt || g.gt != gt || g.le != (lt || eq) || g.ge != (gt || eq) || g.way != (lt ? -1 : gt ? 1 : 0))
        {
            fail("order", "%s against %s: < %d, <= %d, > %d, >= %d, <=> %d", text(a).substr(0, 200).c_str(), text(b).substr(0, 200).c_str(), g.lt, g.le, g.gt, g.ge, g.way);
        }
        if (eq && &a != &b)
        {
            probe("equal_pairs_ordered");
        }
#endif
        note(mix2(eq, g.way + 1));
    }
    void compare(int i, int j)
    {
        switch (cur_op->code)
        {
            case op_int: relate(x[i], x[j], mx[i], mx[j]); break;
            case op_str: relate(s[i], s[j], ms[i], ms[j]); break;
            case op_fraction: relate(f[i], f[j], mf[i], mf[j]); break;
#if PROP == 25
            case op_complex: relate(c[i], c[j], mc[i], mc[j]); break;
#else
            case op_list: relate(l[i], l[j], ml[i], ml[j]); break;
            case op_deque: relate(d[i], d[j], md[i], md[j]); break;
            case op_elems: relate(e[i], e[j], me[i], me[j]); break;
#endif
            default: break;
        }
    }

    // ---- histories
    static std::string digits(Rng& r)
    {
        static const int lens[] = {1, 1, 2, 8, 9, 10, 17, 18, 19, 27, 40, 100};
        std::string t = r.chance(40) ? "-" : r.chance(10) ? "+" : "";
        t += std::string(r.chance(25) ? r.below(12) : 0, '0');
        int n = lens[r.below(12)];
        if (r.chance(30))
        {
            return t + (char)('0' + r.below(3)) + std::string(n, r.chance(70) ? '0' : '9');
        }
        for (; n > 0; --n)
        {
            t += (char)('0' + r.below(10));
        }
        return t;
    }
    static Int small(Rng& r) { return Int((int)r.range(-3, 3)); }
    void int_op(const Op& op)
    {
        Rng r(mix2(op.a[3], op.a[4]));
        const int i = norm(op.a[0], N), j = norm(op.a[1], N);
        const std::string lit = digits(r);
        const Int k = Int(digits(r).c_str()), m = [&] { Int t = Int(digits(r).c_str()); return t.is_zero() ? Int(7) : t; }();
        const int few = (int)r.range(-3, 3);
        if (r.below(250) == 0)
        {
            // two long numbers that differ at one place, or not at all
            std::string a(r.range(300, 1800), '7'), b;
            for (char& ch : a)
            {
                ch = (char)(r.chance(30) ? '9' : '1' + r.below(9));
            }
            b = a;
            b[r.below(b.size())] = (char)('1' + r.below(9));
            a = r.chance(50) ? a : "-" + a;
            b = a[0] == '-' && r.chance(90) ? "-" + b : b;
            probe("long_pairs");
            go(i, j, [&] { x[i] = Int(a.c_str()); x[j] = Int(b.c_str()); });
            go(i, j, [&] { x[i] = x[j] + few; });
            return;
        }
        if (mx[i] > Ref(1) << 2000 || mx[i] < -(Ref(1) << 2000))
        {
            go(i, j, [&] { x[i] = few; });
            return;
        }
        switch (norm(op.a[2], 22))
        {
            case 0: go(i, j, [&] { x[i] = x[j] + k - k; }); break;
            case 1: go(i, j, [&] { x[i] = -(-x[j]); }); break;
            case 2: {
                std::string t = text(x[j]);
                bool neg = t[0] == '-';
                t = (neg ? "-" : r.chance(30) ? "+" : "") + std::string(r.below(30), '0') + t.substr(neg);
                go(i, j, [&] { x[i] = Int(t.c_str()); });
                break;
            }
            case 3: go(i, j, [&] { x[i] = x[j] * m / m; }); break;
            case 4: go(i, j, [&] { x[i] = x[j]; }); break;
            case 5: go(i, j, [&] { Int t = x[j]; x[i] = std::move(t); }); break;
            case 6: go(i, j, [&] { x[i] = x[j]; x[i] += k; x[i] -= k; }); break;
            case 7: go(i, j, [&] { std::stringstream t; t << x[j]; t >> x[i]; }); break;
            case 8: go(i, j, [&] { x[i] = x[j] - x[j]; }); break;
            case 9: go(i, j, [&] { x[i] = Int(lit.c_str()); }); break;
            case 10: go(i, j, [&] { ++x[i]; }); break;
            case 11: go(i, j, [&] { --x[i]; }); break;
            case 12: go(i, j, [&] { x[i] = x[j] + few; }); break;
            case 13: go(i, j, [&] { std::swap(x[i], x[j]); }); break;
            case 14: go(i, j, [&] { x[i] = -x[j]; }); break;
            case 15: go(i, j, [&] { x[i] = x[j].abs(); }); break;
            case 16: go(i, j, [&] { x[i] /= 0; }); break;
            case 17: go(i, j, [&] { std::istringstream t(lit + "z"); t >> x[i]; }); break;
            case 18: go(i, j, [&] { x[i] %= m; }); break;
            case 19: go(i, j, [&] { x[i] = Str(text(x[j])).to_integer(); }); break;
            case 20: go(i, j, [&] { x[i] -= x[i]; }); break;
            default: go(i, j, [&] { x[i] *= m; x[i] += x[j]; }); break;
        }
    }
    static std::string word(Rng& r)
    {
        std::string t;
        for (int n = (int)r.below(r.chance(20) ? r.chance(20) ? 120 : 40 : 5); n > 0; --n)
        {
            static const char some[] = "aab\0\xff\x80\x7f ";
            t += some[r.below(8)];
        }
        if (r.chance(8))
        {
            decorate(r, t);
        }
        return t;
    }
    void str_op(const Op& op)
    {
        Rng r(mix2(op.a[3], op.a[4]));
        const int i = norm(op.a[0], N), j = norm(op.a[1], N);
        const Str w(word(r));
        const int n = s[j].size(), by = (int)r.range(-9, 9);
        if (r.below(250) == 0)
        {
            // two long texts that differ at one place, or not at all
            std::string a(r.range(300, 9000), 'm'), b;
            for (char& ch : a)
            {
                ch = (char)(r.chance(80) ? 'a' + r.below(3) : r.below(256));
            }
            b = a;
            b[r.below(b.size())] ^= (char)(1u << r.below(8));
            b.resize(r.chance(30) ? b.size() - r.below(3) : b.size());
            probe("long_pairs");
            go(i, j, [&] { s[i] = Str(a); s[j] = Str(b); });
            go(i, j, [&] { s[i] = Str(a).reverse().reverse(); });
            return;
        }
        if (s[i].size() > 300)
        {
            go(i, j, [&] { s[i] = w; });
            return;
        }
        if (r.below(12) == 0 && n)
        {
            // another text of the same length in the same place
            std::string same(s[i].data(), s[i].size());
            for (int k = (int)r.range(1, 3); k > 0 && !same.empty(); --k)
            {
                same[r.below(same.size())] ^= (char)(1u << r.below(8));
            }
            const Str other(same);
            go(i, j, [&] { s[i] = other; });
            return;
        }
        switch (norm(op.a[2], 15))
        {
            case 0: go(i, j, [&] { s[i] = w; }); break;
            case 1: go(i, j, [&] { s[i] = s[j]; }); break;
            case 2: go(i, j, [&] { s[i] = (s[j] + w).slice(0, n, 1); }); break;
            case 3: go(i, j, [&] { s[i] = s[j].reverse().reverse(); }); break;
            case 4: go(i, j, [&] { s[i] = (s[j] >> by) << by; }); break;
            case 5: go(i, j, [&] { s[i] = s[j] + w; }); break;
            case 6: go(i, j, [&] { s[i] = Str(text(s[j]).substr(1, n)); }); break;
            case 7: go(i, j, [&] { s[i] = s[j] * 1; }); break;
            case 8: go(i, j, [&] { Str t = s[j]; s[i] = std::move(t); }); break;
            case 9: go(i, j, [&] { std::swap(s[i], s[j]); }); break;
            case 10: go(i, j, [&] { s[i] = (w + s[j]).erase(0, w.size()); }); break;
            case 11: go(i, j, [&] { s[i] = s[j].lower(); }); break;
            case 12: go(i, j, [&] { s[i] = s[j].replace("a", "b"); }); break;
            case 13: {
                const std::string line(s[j].data(), n);
                go(i, j, [&] {
                    std::istringstream t(line);
                    t >> s[i]; });
                break;
            }
            default: go(i, j, [&] { s[i] = ""; }); break;
        }
    }
    void fraction_op(const Op& op)
    {
        Rng r(mix2(op.a[3], op.a[4]));
        const int i = norm(op.a[0], N), j = norm(op.a[1], N);
        static const int edge[] = {INT_MAX, INT_MAX - 1, INT_MAX - 2, INT_MIN + 1, INT_MIN + 2, 65536, 65537, -65536, 46341, 46340, 1 << 30, 1};
        auto wide = [&] { return r.chance(50) ? edge[r.below(12)] : (int)r.range(-INT_MAX, INT_MAX); };
        auto tiny = [&](const Rat& q) { return std::llabs(q.n) <= 5000 && q.d <= 5000; };
        const int a = wide(), b = [&] { int t = wide(); return t ? t : 1; }(), n = (int)r.range(-20, 20), m = (int)r.range(1, 20), k = (int)r.range(-50, 50);
        const bool both = tiny(mf[i]) && tiny(mf[j]);
        switch (norm(op.a[2], 15))
        {
            case 0: go(i, j, [&] { f[i] = Fraction(n, m); }); break;
            case 1: go(i, j, [&] { f[i] = Fraction(n * (k ? k : 1), m * (k ? k : 1)); }); break;
            case 2:
            case 3: go(i, j, [&] { f[i] = Fraction(a, b); }); break;
            case 4:
                if (mf[j].n < INT_MAX && mf[j].n > INT_MIN + 1 && mf[j].d < INT_MAX)
                {
                    go(i, j, [&] { f[i] = Fraction((int)mf[j].n + (int)r.range(-1, 1), (int)mf[j].d + 1); });
                }
                break;
            case 5: go(i, j, [&] { f[i] = f[j]; }); break;
            case 6: go(i, j, [&] { Fraction t = f[j]; f[i] = std::move(t); }); break;
            case 7: {
                const int q = both ? (int)r.range(1, 9) : 1; // any spelling of the value
                const std::string t = fmt("%lld/%lld", (long long)mf[j].n * q, (long long)mf[j].d * q);
                go(i, j, [&] { std::istringstream in(t); in >> f[i]; });
                break;
            }
            case 8: go(i, j, [&] { std::swap(f[i], f[j]); }); break;
            case 9:
                if (both)
                {
                    go(i, j, [&] { f[i] += f[j]; });
                }
                break;
            case 10:
                if (both)
                {
                    go(i, j, [&] { f[i] = f[i] * f[j]; });
                }
                break;
            case 11:
                if (both)
                {
                    go(i, j, [&] { f[i] = f[i] + f[j] - f[j]; });
                }
                break;
            case 12: go(i, j, [&] { f[i] = Fraction(n, 0); }); break;
            case 13:
                if (both)
                {
                    go(i, j, [&] { f[i] /= f[j]; });
                }
                break;
            default: go(i, j, [&] { f[i] = n; }); break;
        }
    }
    void complex_op(const Op& op)
    {
        Rng r(mix2(op.a[3], op.a[4]));
        const int i = norm(op.a[0], N), j = norm(op.a[1], N);
        static const double some[] = {0.0, -0.0, 1, -1, 0.5, -2.25, 1e300, -7, 3, 1e15};
        const double a = some[r.below(10)], b = some[r.below(10)];
        switch (norm(op.a[2], 9))
        {
            case 0:
            case 1: go(i, j, [&] { c[i] = Complex(a, b); }); break;
            case 2: go(i, j, [&] { c[i] = c[j]; }); break;
            case 3: go(i, j, [&] { c[i] = -(-c[j]); }); break;
            case 4: go(i, j, [&] { c[i] = c[j].conjugate().conjugate(); }); break;
            case 5: go(i, j, [&] { Complex t = c[j]; c[i] = std::move(t); }); break;
            case 6: go(i, j, [&] { c[i] = -c[j]; }); break;
            case 7: go(i, j, [&] { c[i] = c[j] - c[j]; }); break;
            default: go(i, j, [&] { c[i] = c[j] * Complex(-1, 0); }); break;
        }
    }
    template <class C, class V>
    void seq_op(C* q, const Op& op, const V& v, void (*push)(C&, const V&))
    {
        Rng r(mix2(op.a[3], op.a[4]));
        const int i = norm(op.a[0], N), j = norm(op.a[1], N), n = q[i].size();
        if (n > 12 && (n > 300 || r.chance(60)))
        {
            go(i, j, [&] { q[i].clear(); });
            return;
        }
        if (r.below(150) == 0)
        {
            // two long sequences that differ at one place, or not at all
            const int size = (int)(r.chance(93) ? r.range(15, 140) : r.range(140, 1400)), at = (int)r.below(size), less = r.chance(30) ? (int)r.below(3) : 0;
            const u64 seed = r.next();
            probe("long_pairs");
            go(i, j, [&] {
                C a, b;
                Rng t(seed);
                for (int k = 0; k < size; ++k)
                {
                    const V& w = n && t.chance(50) ? q[i][(int)t.below(n)] : v;
                    push(a, w);
                    k < size - less ? push(b, w) : void();
                }
                if (at < b.size())
                {
                    b[at] = v;
                }
                for (int more = t.chance(50) ? 0 : (int)t.range(1, 3); more > 0 && n && b.size(); --more)
                {
                    const int k = (int)t.below(b.size());
                    b[k] = q[i][(int)t.below(n)];
                }
                q[j] = std::move(b);
                q[i] = std::move(a); });
            return;
        }
        switch (norm(op.a[2], 9))
        {
            case 0:
            case 1:
            case 2: go(i, j, [&] { push(q[i], v); }); break;
            case 3: go(i, j, [&] { q[i] = q[j]; }); break;
            case 4: go(i, j, [&] { C t = q[j]; push(t, v); q[i] = std::move(t); }); break;
            case 5: go(i, j, [&] { std::swap(q[i], q[j]); }); break;
            case 6:
                if (n)
                {
                    const int at = (int)r.below(n);
                    go(i, j, [&] { q[i] = q[j]; if (at < q[i].size()) { q[i][at] = v; } });
                }
                break;
            case 7: go(i, j, [&] { q[i].reverse(); }); break;
            default: go(i, j, [&] { q[i] = C(q[j].begin(), q[j].end()); }); break;
        }
    }
    // all values of one type in one ordered, or one unordered, container
    template <class T, class M>
    void sorted(const T* v, const M* m)
    {
#if PROP == 25
        if constexpr (requires { std::hash<T>{}(*v); })
        {
            int hit = 0, size = 0, kinds = 0;
            Outcome o = run_op([&] {
                hit = 0;
                std::unordered_map<T, int> u;
                for (int i = 0; i < N; ++i)
                {
                    u.emplace(v[i], i);
                }
                for (int i = 0; i < N; ++i)
                {
                    auto it = u.find(v[i]);
                    hit += it != u.end() && m[it->second] == m[i];
                }
                size = (int)u.size(); },
                               [](const Outcome&) { return RETRY; });
            for (int i = 0; i < N; ++i)
            {
                kinds += std::find(m, m + i, m[i]) == m + i;
            }
            if (o.ok() && (hit != N || size != kinds))
            {
                fail("unordered-keys", "%d of %d values found in an unordered map of %d keys, %d distinct values were put in", hit, N, size, kinds);
            }
        }
#else
        std::vector<int> order(N), got;
        std::iota(order.begin(), order.end(), 0);
        std::stable_sort(order.begin(), order.end(), [&](int p, int q) { return less(m[p], m[q]); });
        bool ok = true;
        int size = 0, kinds = 0;
        Outcome o = run_op([&] {
            List<T> all(v, v + N);
            all.sort();
            Set<T> set(v, v + N);
            size = set.size();
            ok = true;
            for (int i = 0; i < N; ++i)
            {
                ok = ok && all[i] == v[order[i]] && set.contains(v[i]);
            }
            ok = ok && set.min() == v[order[0]] && set.max() == v[order[N - 1]]; },
                           [](const Outcome&) { return RETRY; });
        for (int i = 0; i < N; ++i)
        {
            kinds += std::find(m, m + i, m[i]) == m + i;
        }
        if (o.ok() && (!ok || size != kinds))
        {
            fail("sorted-containers", "a sorted list or a set of %d values (%d distinct, set size %d) is not in order", N, kinds, size);
        }
#endif
    }

    void exec(const Op& op)
    {
        Rng r(mix2(op.a[4], op.a[5]));
        switch (op.code)
        {
            case op_int: int_op(op); break;
            case op_str: str_op(op); break;
            case op_fraction: fraction_op(op); break;
            case op_complex: complex_op(op); break;
            case op_list: seq_op<List<Int>, Int>(l, op, r.chance(60) ? x[r.below(N)] : Int(digits(r).c_str()), [](List<Int>& q, const Int& v) { q += v; }); break;
            case op_deque: seq_op<Deque<Str>, Str>(d, op, r.chance(60) ? s[r.below(N)] : Str(word(r)), r.chance(50) ? [](Deque<Str>& q, const Str& v) { q.push_back(v); } : [](Deque<Str>& q, const Str& v) { q.push_front(v); }); break;
            case op_elems: seq_op<List<Elem>, Elem>(e, op, Elem((i64)r.below(3), 1), [](List<Elem>& q, const Elem& v) { q += v; }); break;
            case op_relate: {
                // every pair of one type
                Op as = op;
                static const int codes[] = {op_int, op_str, op_fraction, op_complex, op_list, op_deque, op_elems};
                as.code = codes[norm(op.a[2], 7)];
                const Op* saved = cur_op;
                cur_op = &as;
                for (int i = 0; i < N; ++i)
                {
                    for (int j = 0; j < N; ++j)
                    {
                        compare(i, j);
                    }
                }
                cur_op = saved;
                break;
            }
            case op_sorted:
                switch (norm(op.a[2], 4))
                {
                    case 0: sorted(x, mx); break;
                    case 1: sorted(s, ms); break;
                    case 2: sorted(f, mf); break;
#if PROP == 26
                    default: sorted(l, ml); break;
#else
                    default: sorted(c, mc); break;
#endif
                }
                break;
        }
    }
};

static std::unique_ptr<Seg> seg;
static void do_reset(const Op&)
{
    seg.reset(new Seg);
#if PROP == 25
    // the known finding: Complex equality has a tolerance and its hash has not
    bool differ = false;
    must("hashing", [&] {
        Complex a(0.1 + 0.2, 0), b(0.3, 0);
        differ = a == b && std::hash<Complex>{}(a) != std::hash<Complex>{}(b); });
    if (differ)
    {
        known("complex-tolerance-hash", "Complex(0.1 + 0.2) == Complex(0.3) but their hashes differ");
    }
#endif
}
static void do_exec(const Op& op)
{
    if (seg)
    {
        seg->exec(op);
    }
}
static void do_finish() { seg.reset(); }

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    out.push_back(reset);
    GenFaults gf;
    static const int all[] = {F_ALLOC, F_ALLOC_STICKY, F_ALLOC_SWEEP, F_COPY, F_COMPARE};
    if (r.chance(75))
    {
        gf.rate = (int)r.range(10, 60);
        for (int k : all)
        {
            if (r.chance(60))
            {
                gf.kinds.push_back(k);
            }
        }
        gf.maxbits = (int)r.range(1, 5);
    }
    std::vector<int> ops;
    for (int k = (int)r.range(1, 3); k > 0; --k)
    {
        ops.push_back((int)r.range(op_int, PROP == 25 ? op_complex : op_elems));
        if (PROP == 26 && ops.back() == op_complex)
        {
            ops.back() = op_fraction;
        }
    }
    int len = (int)r.range(8, thorough ? 90 : 50);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = ops[r.below(ops.size())];
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 20);
        }
        if (r.chance(12))
        {
            const int t = op.code;
            op.code = r.chance(60) ? op_relate : op_sorted;
            op.a[2] = op.code == op_relate ? t - op_int : t == op_int ? 0 : t == op_str ? 1 : t == op_fraction ? 2 : 3;
        }
        gf.apply(r, op);
        out.push_back(op);
    }
}

namespace sim
{
World world = {"order", names, N_OPS, "digest of (operation, outcome, injected fault, comparison results) over a whole history",
               "Int, Str, Fraction, Complex, List and Deque: comparison, hashing and the operations that lead to the compared values", "allocator, element type (copy and comparison failures)",
               gen, do_reset, do_exec, do_finish, 400000000, 250000, 40000000};
}
