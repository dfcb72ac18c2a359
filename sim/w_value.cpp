// World: copies, moves, swaps and self-assignment of every type, with failing copies (C21).
#include "elem.hpp"
#include <algorithm>
#include <boost/multiprecision/cpp_int.hpp>
#include <map>
#include <memory>
#include <set>
#include <sstream>

using namespace sim;
using namespace pyincpp;
typedef boost::multiprecision::cpp_int Ref;
typedef std::string S;

#define OPS(X) X(RESET) X(make) X(copy_new) X(copy_assign) X(self_assign) X(move_new) X(move_assign) X(swap) X(self_swap) X(mutate) X(derive) X(chain) X(boxed) X(by_value) X(element) X(drop) X(rotate)
enum Code
{
#define X(n) op_##n,
    OPS(X)
#undef X
        N_OPS
};
static const char* const names[] = {
#define X(n) #n,
    OPS(X)
#undef X
};

// ---------------------------------------------------------------- what a value of each type is
// V<T>: Model type, random model, build, observe (through the public const interface), mutate, derived copies
template <class T>
struct V;

static int small(Rng& r) { return (int)r.range(-1000, 1000); }
// now and then an object of quite another size
static size_t sized(Rng& r, size_t usual, size_t large)
{
    return r.below(400) ? usual : large / 8 + r.below(large);
}

template <>
struct V<Int>
{
    typedef Ref Model;
    static constexpr const char* name = "Int";
    static constexpr bool strong = true;
    static Model zero() { return 0; }
    static Model random(Rng& r)
    {
        int n = (int)sized(r, r.chance(15) ? 0 : r.chance(50) ? r.below(8) : r.below(120), 1000);
        Ref v = 0;
        for (int i = 0; i < n; ++i)
        {
            v = v * 10 + (int)r.below(10);
        }
        return r.chance(40) ? Ref(-v) : v;
    }
    static Int build(const Model& m) { return Int(m.str().c_str()); }
    static S show(const Model& m) { return m.str(); }
    static S see(const Int& x)
    {
        std::ostringstream o;
        o << x;
        S s = o.str();
        int sign = s == "0" ? 0 : s[0] == '-' ? -1 : 1;
        if (x.is_zero() != !sign || x.is_positive() != (sign > 0) || x.is_negative() != (sign < 0) || (x == Int(0)) != !sign || (sign && x.digits() != (int)s.size() - (sign < 0)))
        {
            s += " (inconsistent)";
        }
        return s;
    }
    static void mutate(Int& x, Model& m, Rng& r)
    {
        Ref v = random(r);
        Int y = build(v);
        switch (r.below(8))
        {
            case 0: x += y, m += v; break;
            case 1: x -= y, m -= v; break;
            case 2: x *= y, m *= v; break;
            case 3: ++x, ++m; break;
            case 4: --x, --m; break;
            case 5: x += x, m += m; break;
            case 6:
                if (v != 0)
                {
                    x %= y, m %= v;
                }
                break;
            default:
                if (v != 0)
                {
                    x /= y, m /= v;
                }
                break;
        }
        if (m > (Ref(1) << 8000) || m < -(Ref(1) << 8000))
        {
            x = Int(), m = 0;
        }
    }
    static Int derive(const Int& x, Rng& r)
    {
        switch (r.below(4))
        {
            case 0: return +x;
            case 1: return -(-x);
            case 2: return x + 0;
            default: return x * 1;
        }
    }
    static bool from_element(Int&, Model&, Rng&) { return false; }
};

template <>
struct V<Str>
{
    typedef S Model;
    static constexpr const char* name = "Str";
    static constexpr bool strong = true;
    static Model zero() { return ""; }
    static Model random(Rng& r)
    {
        S s(sized(r, r.chance(20) ? 0 : r.chance(50) ? r.below(16) : r.below(90), 6000), 'x');
        for (char& c : s)
        {
            c = r.chance(3) ? '\0' : (char)('a' + r.below(26));
        }
        return s;
    }
    static Str build(const Model& m) { return Str(m); }
    static S show(const Model& m) { return sim::show(m); }
    static S see(const Str& t)
    {
        S s(t.data(), (size_t)t.size()), u(t.begin(), t.end());
        S r = sim::show(s);
        if (s != u || t.is_empty() != s.empty() || t.data()[t.size()] || !(t == Str(s)))
        {
            r += " (inconsistent)";
        }
        return r;
    }
    static void mutate(Str& t, Model& m, Rng& r)
    {
        S v = random(r);
        switch (r.below(4))
        {
            case 0: t = t + Str(v), m += v; break;
            case 1: t = t.reverse(), std::reverse(m.begin(), m.end()); break;
            case 2: t = Str(v) + t, m = v + m; break;
            default: t = t + 'Z', m += 'Z'; break;
        }
        if (m.size() > 600 && r.chance(m.size() > 9000 ? 100 : 40))
        {
            t = Str(), m = "";
        }
    }
    static Str derive(const Str& t, Rng& r)
    {
        switch (r.below(4))
        {
            case 0: return t.is_empty() ? Str(t) : t.slice(0, t.size());
            case 1: return t + Str();
            case 2: return t >> 0;
            default: return t * 1;
        }
    }
    static bool from_element(Str&, Model&, Rng&) { return false; }
};

template <>
struct V<Fraction>
{
    typedef std::pair<int, int> Model;
    static constexpr const char* name = "Fraction";
    static constexpr bool strong = false;
    static Model zero() { return {0, 1}; }
    static Model norm(int n, int d)
    {
        int g = std::gcd(n, d) * (d < 0 ? -1 : 1);
        return {n / g, d / g};
    }
    static Model random(Rng& r) { return norm(small(r), (int)r.range(1, 99)); }
    static Fraction build(const Model& m) { return Fraction(m.first, m.second); }
    static S show(const Model& m) { return fmt("%d/%d", m.first, m.second); }
    static S see(const Fraction& f)
    {
        S s = fmt("%d/%d", f.numerator(), f.denominator());
        return s + (f == Fraction(f.numerator(), f.denominator()) ? "" : " (inconsistent)");
    }
    static void mutate(Fraction& f, Model& m, Rng& r)
    {
        if (std::abs(m.first) > 5000 || m.second > 500)
        {
            f = Fraction(), m = zero();
        }
        Model v = random(r);
        switch (r.below(3))
        {
            case 0: f += build(v), m = norm(m.first * v.second + v.first * m.second, m.second * v.second); break;
            case 1: f -= build(v), m = norm(m.first * v.second - v.first * m.second, m.second * v.second); break;
            default: f *= build(v), m = norm(m.first * v.first, m.second * v.second); break;
        }
    }
    static Fraction derive(const Fraction& f, Rng& r) { return r.chance(50) ? +f : -(-f); }
    static bool from_element(Fraction&, Model&, Rng&) { return false; }
};

template <>
struct V<Complex>
{
    typedef std::pair<double, double> Model;
    static constexpr const char* name = "Complex";
    static constexpr bool strong = false;
    static Model zero() { return {0, 0}; }
    static Model random(Rng& r) { return {(double)small(r), (double)small(r)}; }
    static Complex build(const Model& m) { return Complex(m.first, m.second); }
    static S show(const Model& m) { return fmt("%.17g,%.17g", m.first + 0.0, m.second + 0.0); }
    static S see(const Complex& c) { return fmt("%.17g,%.17g", c.real() + 0.0, c.imag() + 0.0) + (c == Complex(c.real(), c.imag()) ? "" : " (inconsistent)"); }
    static void mutate(Complex& c, Model& m, Rng& r)
    {
        Model v = random(r);
        if (r.chance(50))
        {
            c += build(v), m = {m.first + v.first, m.second + v.second};
        }
        else
        {
            c -= build(v), m = {m.first - v.first, m.second - v.second};
        }
    }
    static Complex derive(const Complex& c, Rng& r) { return r.chance(50) ? +c : c.conjugate().conjugate(); }
    static bool from_element(Complex&, Model&, Rng&) { return false; }
};

// elements, as values of one number
template <class E>
static S see_elem(const E& e)
{
    return TR<E>::moved(e) ? S("moved") : std::to_string(TR<E>::val(e)) + (TR<E>::tagged ? fmt("#%lld", (long long)TR<E>::tag(e)) : S());
}
template <class E>
static S show_elem(const MV& m)
{
    return m.v == MOVED ? S("moved") : std::to_string(m.v) + (TR<E>::tagged ? fmt("#%lld", (long long)m.tag) : S());
}
template <class E>
static E mk_elem(const MV& m)
{
    E e = TR<E>::make(m.v, m.tag);
    if (m.v == MOVED)
    {
        E taken(std::move(e));
    }
    return e;
}
extern i64 tags;
#if PART == 0
i64 tags = 0;
#endif
static MV random_mv(Rng& r) { return MV{(i64)r.below(30), ++tags}; }

template <class C, class E, bool DEQ>
struct VSeq
{
    typedef std::vector<MV> Model;
    static constexpr bool strong = false;
    static Model zero() { return {}; }
    static Model random(Rng& r)
    {
        Model m(sized(r, r.chance(20) ? 0 : r.chance(70) ? r.below(7) : r.below(40), 1200));
        for (auto& e : m)
        {
            e = random_mv(r);
        }
        return m;
    }
    static C build(const Model& m)
    {
        C c;
        for (auto& e : m)
        {
            if constexpr (DEQ)
            {
                c.push_back(mk_elem<E>(e));
            }
            else
            {
                c += mk_elem<E>(e);
            }
        }
        return c;
    }
    static S show(const Model& m)
    {
        S s = "[";
        for (auto& e : m)
        {
            s += show_elem<E>(e) + " ";
        }
        return s + "]";
    }
    static S see(const C& c)
    {
        S s = "[";
        int n = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++n)
        {
            s += see_elem<E>(*it) + " ";
            if (n >= c.size())
            {
                break;
            }
            if (&c[n] != &*it)
            {
                s += "(index)";
            }
        }
        s += "]";
        if (n != c.size() || c.is_empty() != (n == 0) || !(c == c))
        {
            s += " (inconsistent)";
        }
        return s;
    }
    static void mutate(C& c, Model& m, Rng& r)
    {
        MV v = random_mv(r);
        switch (r.below(8))
        {
            case 0:
                if (!m.empty())
                {
                    size_t i = r.below(m.size());
                    c[(int)i] = TR<E>::make(v.v, v.tag);
                    m[i] = v;
                    break;
                }
                [[fallthrough]];
            case 1:
            case 2:
                if constexpr (DEQ)
                {
                    c.push_front(TR<E>::make(v.v, v.tag));
                    m.insert(m.begin(), v);
                }
                else
                {
                    size_t i = r.below(m.size() + 1);
                    c.insert((int)i, TR<E>::make(v.v, v.tag));
                    m.insert(m.begin() + i, v);
                }
                break;
            case 3: c.reverse(), std::reverse(m.begin(), m.end()); break;
            case 4:
                if (!m.empty())
                {
                    if constexpr (DEQ)
                    {
                        c.pop_back();
                        m.pop_back();
                    }
                    else
                    {
                        size_t i = r.below(m.size());
                        c.remove((int)i);
                        m.erase(m.begin() + i);
                    }
                }
                break;
            case 5:
                if (!m.empty())
                {
                    c >>= 1, std::rotate(m.begin(), m.end() - 1, m.end());
                }
                break;
            case 6:
                if (r.chance(30))
                {
                    c.clear(), m.clear();
                }
                break;
            default:
                if constexpr (DEQ)
                {
                    c.push_back(TR<E>::make(v.v, v.tag));
                }
                else
                {
                    c += TR<E>::make(v.v, v.tag);
                }
                m.push_back(v);
                break;
        }
        if (m.size() > 60 && r.chance(40))
        {
            c = C(), m.clear();
        }
    }
    static C derive(const C& c, Rng& r)
    {
        if constexpr (DEQ)
        {
            return c; // by value
        }
        else
        {
            switch (r.below(3))
            {
                case 0: return c.is_empty() ? C() : c.slice(0, c.size());
                case 1: return c + C();
                default: return c * 1;
            }
        }
    }
    // moving an element out, or assigning one element to another, touches only these
    static bool from_element(C& c, Model& m, Rng& r)
    {
        if (m.empty())
        {
            return false;
        }
        size_t i = r.below(m.size()), j = r.below(m.size());
        switch (r.below(3))
        {
            case 0: {
                E e = std::move(c[(int)i]);
                Out out;
                if (see_elem<E>(e) != show_elem<E>(m[i]))
                {
                    fail("copy-differs", "element %zu moved out of a %s is %s, expected %s", i, name_of(), see_elem<E>(e).c_str(), show_elem<E>(m[i]).c_str());
                }
                if (TR<E>::moved(c[(int)i]))
                {
                    m[i] = MV{MOVED, MOVED};
                }
                else if constexpr (std::is_same_v<E, Str> || std::is_same_v<E, Int>)
                {
                    fail("moved-from", "a moved-from element of a %s is %s", name_of(), see_elem<E>(c[(int)i]).c_str());
                }
                break;
            }
            case 1:
                c[(int)i] = c[(int)j];
                m[i] = m[j];
                break;
            default:
                std::swap(c[(int)i], c[(int)j]);
                std::swap(m[i], m[j]);
                break;
        }
        return true;
    }
    static const char* name_of() { return V<C>::name; }
};
#define SEQ(TYPE, E, DEQ) \
    template <> \
    struct V<TYPE> : VSeq<TYPE, E, DEQ> \
    { \
        static constexpr const char* name = #TYPE; \
    };
typedef List<List<int>> Nested;
SEQ(List<int>, int, false)
SEQ(List<Elem>, Elem, false)
SEQ(List<Str>, Str, false)
SEQ(List<Int>, Int, false)
SEQ(Deque<Elem>, Elem, true)
SEQ(Deque<Int>, Int, true)

template <class C, class E>
struct VSet
{
    typedef std::map<i64, i64> Model; // value -> tag
    static constexpr bool strong = false;
    static Model zero() { return {}; }
    static Model random(Rng& r)
    {
        Model m;
        const size_t size = sized(r, r.chance(20) ? 0 : r.below(20), 600);
        for (size_t n = size; n > 0; --n)
        {
            MV e = random_mv(r);
            e.v = size > 20 ? (i64)r.below(4 * size) : e.v;
            m.emplace(e.v, e.tag);
        }
        return m;
    }
    static C build(const Model& m)
    {
        C c;
        for (auto& e : m)
        {
            c.add(TR<E>::make(e.first, e.second));
        }
        return c;
    }
    static S show(const Model& m)
    {
        S s = "{";
        for (auto& e : m)
        {
            s += show_elem<E>(MV{e.first, e.second}) + " ";
        }
        return s + "}";
    }
    static S see(const C& c)
    {
        S s = "{";
        int n = 0;
        for (auto it = c.begin(); it != c.end() && n <= 1000; ++it, ++n)
        {
            s += see_elem<E>(*it) + " ";
            if (!c.contains(*it))
            {
                s += "(lost)";
            }
        }
        s += "}";
        if (n != c.size() || c.is_empty() != (n == 0) || !(c == c) || !(c <= c))
        {
            s += " (inconsistent)";
        }
        return s;
    }
    static void mutate(C& c, Model& m, Rng& r)
    {
        MV v = random_mv(r);
        E e = TR<E>::make(v.v, v.tag);
        switch (r.below(5))
        {
            case 0: c.remove(e), m.erase(v.v); break;
            case 1:
                if (!m.empty())
                {
                    c.pop();
                    m.erase(m.begin()); // the choice is checked by C07; here the state must match what pop took
                }
                break;
            case 2:
                if (r.chance(30))
                {
                    c.clear(), m.clear();
                }
                break;
            default: c.add(e), m.emplace(v.v, v.tag); break;
        }
    }
    static C derive(const C& c, Rng& r)
    {
        switch (r.below(4))
        {
            case 0: return c | C();
            case 1: return c - C();
            case 2: return c ^ C();
            default: return c & c;
        }
    }
    static bool from_element(C&, Model&, Rng&) { return false; }
};
template <>
struct V<Set<Elem>> : VSet<Set<Elem>, Elem>
{
    static constexpr const char* name = "Set<Elem>";
};
template <>
struct V<Set<Str>> : VSet<Set<Str>, Str>
{
    static constexpr const char* name = "Set<Str>";
};

template <class C, class K, class E>
struct VDict
{
    typedef std::map<i64, MV> Model;
    static constexpr bool strong = false;
    static Model zero() { return {}; }
    static Model random(Rng& r)
    {
        Model m;
        const size_t size = sized(r, r.chance(20) ? 0 : r.below(16), 600);
        for (size_t n = size; n > 0; --n)
        {
            m.emplace(r.below(size > 16 ? 4 * size : 30), random_mv(r));
        }
        return m;
    }
    static C build(const Model& m)
    {
        C c;
        for (auto& e : m)
        {
            c.add(TR<K>::make(e.first, 0), TR<E>::make(e.second.v, e.second.tag));
        }
        return c;
    }
    static S show(const Model& m)
    {
        S s = "{";
        for (auto& e : m)
        {
            s += show_elem<K>(MV{e.first, 0}) + ":" + show_elem<E>(e.second) + " ";
        }
        return s + "}";
    }
    static S see(const C& c)
    {
        S s = "{";
        int n = 0;
        for (auto it = c.begin(); it != c.end() && n <= 1000; ++it, ++n)
        {
            s += see_elem<K>(it->first) + ":" + see_elem<E>(it->second) + " ";
            if (!c.contains(it->first) || &c[it->first] != &it->second)
            {
                s += "(lost)";
            }
        }
        s += "}";
        if (n != c.size() || c.is_empty() != (n == 0) || !(c == c))
        {
            s += " (inconsistent)";
        }
        return s;
    }
    static void mutate(C& c, Model& m, Rng& r)
    {
        i64 k = r.below(30);
        MV v = random_mv(r);
        K key = TR<K>::make(k, 0);
        switch (r.below(6))
        {
            case 0: c.remove(key), m.erase(k); break;
            case 1:
            case 2:
                if (m.count(k))
                {
                    c[key] = TR<E>::make(v.v, v.tag);
                    m[k] = v;
                    break;
                }
                [[fallthrough]];
            case 3: c.add(key, TR<E>::make(v.v, v.tag)), m.emplace(k, v); break;
            case 4:
                if (r.chance(30))
                {
                    c.clear(), m.clear();
                }
                break;
            default:
                if (!m.empty())
                {
                    c.pop();
                    m.erase(m.begin());
                }
                break;
        }
    }
    static C derive(const C& c, Rng& r) { return c; }
    static bool from_element(C& c, Model& m, Rng& r)
    {
        if (m.size() < 2)
        {
            return false;
        }
        auto a = std::next(m.begin(), r.below(m.size())), b = std::next(m.begin(), r.below(m.size()));
        E& x = c[TR<K>::make(a->first, 0)];
        E& y = c[TR<K>::make(b->first, 0)];
        if (r.chance(50))
        {
            x = y;
            a->second = b->second;
        }
        else
        {
            std::swap(x, y);
            std::swap(a->second, b->second);
        }
        return true;
    }
};
typedef Dict<Elem, Elem> DEE;
typedef Dict<Str, Int> DSI;
template <>
struct V<DEE> : VDict<DEE, Elem, Elem>
{
    static constexpr const char* name = "Dict<Elem, Elem>";
};
template <>
struct V<DSI> : VDict<DSI, Str, Int>
{
    static constexpr const char* name = "Dict<Str, Int>";
};

// nested: a copy of the outer list owns its inner lists
template <>
struct V<Nested>
{
    typedef std::vector<std::vector<int>> Model;
    static constexpr const char* name = "List<List<int>>";
    static constexpr bool strong = false;
    static Model zero() { return {}; }
    static Model random(Rng& r)
    {
        Model m(r.below(6));
        for (auto& x : m)
        {
            x.resize(r.below(5));
            for (int& e : x)
            {
                e = small(r);
            }
        }
        return m;
    }
    static Nested build(const Model& m)
    {
        Nested c;
        for (auto& x : m)
        {
            c += List<int>(x);
        }
        return c;
    }
    static S show(const Model& m)
    {
        S s = "[";
        for (auto& x : m)
        {
            s += "[";
            for (int e : x)
            {
                s += std::to_string(e) + " ";
            }
            s += "]";
        }
        return s + "]";
    }
    static S see(const Nested& c)
    {
        Model m;
        for (auto& x : c)
        {
            m.emplace_back(x.begin(), x.end());
        }
        return show(m) + (c.size() == (int)m.size() ? "" : " (inconsistent)");
    }
    static void mutate(Nested& c, Model& m, Rng& r)
    {
        int v = small(r);
        if (m.empty() || (r.chance(25) && m.size() < 20))
        {
            c += List<int>{v, v + 1};
            m.push_back({v, v + 1});
            return;
        }
        size_t i = r.below(m.size());
        switch (r.below(4))
        {
            case 0: c[(int)i] += v, m[i].push_back(v); break;
            case 1: c[(int)i].clear(), m[i].clear(); break;
            case 2: c.remove((int)i), m.erase(m.begin() + i); break;
            default:
                if (!m[i].empty())
                {
                    c[(int)i][-1] = v, m[i].back() = v;
                }
                break;
        }
        if (m.size() > i && m[i].size() > 30)
        {
            c[(int)i].clear(), m[i].clear();
        }
    }
    static Nested derive(const Nested& c, Rng& r) { return c.is_empty() ? Nested() : c.slice(0, c.size()); }
    static bool from_element(Nested& c, Model& m, Rng& r)
    {
        if (m.empty())
        {
            return false;
        }
        size_t i = r.below(m.size()), j = r.below(m.size());
        c[(int)i] = c[(int)j];
        m[i] = Model::value_type(m[j]);
        return true;
    }
};

typedef Tuple<Int, Str, List<Elem>> Tup;
template <>
struct V<Tup>
{
    struct Model
    {
        Ref a = 0;
        S b;
        std::vector<MV> c;
    };
    static constexpr const char* name = "Tuple<Int, Str, List<Elem>>";
    static constexpr bool strong = false;
    static Model zero() { return {}; }
    static Model random(Rng& r) { return {V<Int>::random(r), V<Str>::random(r), V<List<Elem>>::random(r)}; }
    static Tup build(const Model& m) { return Tup(V<Int>::build(m.a), V<Str>::build(m.b), V<List<Elem>>::build(m.c)); }
    static S show(const Model& m) { return V<Int>::show(m.a) + "|" + V<Str>::show(m.b) + "|" + V<List<Elem>>::show(m.c); }
    static S see(const Tup& t) { return V<Int>::see(t.get<0>()) + "|" + V<Str>::see(t.get<1>()) + "|" + V<List<Elem>>::see(t.get<2>()); }
    static void mutate(Tup& t, Model& m, Rng& r)
    {
        m = random(r);
        t = build(m);
    }
    static Tup derive(const Tup& t, Rng& r) { return make_tuple(t.get<0>(), t.get<1>(), t.get<2>()); }
    static bool from_element(Tup&, Model&, Rng&) { return false; }
};

// ---------------------------------------------------------------- pools
struct PoolBase
{
    virtual ~PoolBase() {}
    virtual void exec(const Op& op) = 0;
    virtual const char* name() = 0;
};

template <class T>
struct Pool : PoolBase
{
    typedef V<T> P;
    typedef typename P::Model M;
    static const int N = 4;
    std::unique_ptr<T> x[N];
    M m[N];

    const char* name() override { return P::name; }
    Pool()
    {
        for (int i = 0; i < N; ++i)
        {
            m[i] = P::zero();
            must("construction", [&] { x[i].reset(new T(P::build(m[i]))); });
        }
    }
    S see(const T& t)
    {
        S s;
        must("inspection", [&] {
            // elements are read as the harness, the container's own code stays code under test
            s = P::see(t); });
        return s;
    }
    void verify(const char* cls, int skip = -1)
    {
        for (int i = 0; i < N; ++i)
        {
            if (i == skip)
            {
                continue;
            }
            S got = see(*x[i]), want = P::show(m[i]);
            if (got != want)
            {
                fail(cls, "after %s: %s object %d is %s, expected %s", names[cur_op->code], P::name, i, got.c_str(), want.c_str());
            }
        }
    }
    // An assignment to (or construction of) object d failed: the others are unchanged, d is valid. d is then rebuilt.
    void after_failure(int d)
    {
        if (P::strong)
        {
            verify("failed-copy-effect");
            return;
        }
        verify("failed-copy-effect", d);
        see(*x[d]); // readable
        Rng r(mix2(cur_op->a[3], 77));
        switch (r.below(3))
        {
            case 0: // assignable
                m[d] = P::random(r);
                must("assignment to the destination of a failed assignment", [&] { T y = P::build(m[d]); *x[d] = y; });
                break;
            case 1: { // assignable from another
                int k = (d + 1) % N;
                must("assignment to the destination of a failed assignment", [&] { *x[d] = *x[k]; });
                m[d] = m[k];
                break;
            }
            default: // destructible
                must("destruction of the destination of a failed assignment", [&] { x[d].reset(); x[d].reset(new T(P::build(m[d]))); });
                break;
        }
    }
    template <class F>
    bool attempt(int d, F f)
    {
        Outcome o = run_op(f, [&](const Outcome&) {
            after_failure(d);
            return cur_op->a[5] % 3 ? RETRY : GIVE_UP;
        });
        if (o.k == RTE)
        {
            fail("unexpected-exception", "%s of a %s: %s", names[cur_op->code], P::name, o.what.c_str());
        }
        return o.k == OK;
    }
    void exec(const Op& op) override
    {
        Rng r(mix2(op.a[3], op.a[4]));
        int i = (int)((u64)op.a[1] % N), j = (int)((u64)op.a[2] % N);
        note((u64)i * 4 + j);
        switch (op.code)
        {
            case op_make:
                m[i] = P::random(r);
                must("construction", [&] { x[i].reset(new T(P::build(m[i]))); });
                break;
            case op_copy_new: {
                std::unique_ptr<T> y;
                if (attempt(i, [&] { y.reset(new T(*x[j])); }))
                {
                    check_copy(*y, j);
                    must("destruction", [&] { x[i] = std::move(y); });
                    m[i] = M(m[j]);
                }
                break;
            }
            case op_copy_assign:
                if (attempt(i, [&] { *x[i] = *x[j]; }))
                {
                    m[i] = M(m[j]);
                    check_copy(*x[i], j);
                }
                break;
            case op_self_assign:
                attempt(i, [&] { T& alias = *x[i]; T& res = (*x[i] = alias); if (&res != x[i].get()) fail("self-assignment", "the copy assignment of a %s returns another object", P::name); });
                break;
            case op_move_new: {
                std::unique_ptr<T> y;
                Outcome o = run_move([&] { y.reset(new T(std::move(*x[j]))); }, j, j);
                if (o.k == OK)
                {
                    expect(*y, m[j], "move construction");
                    moved_from(j);
                    if (i != j)
                    {
                        m[i] = taken;
                        must("destruction", [&] { x[i] = std::move(y); });
                    }
                }
                break;
            }
            case op_move_assign:
                if (i != j)
                {
                    Outcome o = run_move([&] { *x[i] = std::move(*x[j]); }, i, j);
                    if (o.k == OK)
                    {
                        expect(*x[i], m[j], "move assignment");
                        moved_from(j);
                        m[i] = taken;
                    }
                }
                break;
            case op_swap:
                if (i != j)
                {
                    Outcome o = run_move([&] { using std::swap; swap(*x[i], *x[j]); }, i, j);
                    if (o.k == OK)
                    {
                        std::swap(m[i], m[j]);
                    }
                }
                break;
            case op_self_swap: {
                run_move([&] { using std::swap; swap(*x[i], *x[i]); }, i, i);
                break;
            }
            case op_rotate: {
                // a = b = c by moves through a temporary
                int k = (j + 1) % N;
                if (i != j && j != k && i != k)
                {
                    must("rotation by moves", [&] { T t = std::move(*x[i]); *x[i] = std::move(*x[j]); *x[j] = std::move(*x[k]); *x[k] = std::move(t); });
                    M t = m[i];
                    m[i] = m[j];
                    m[j] = m[k];
                    m[k] = t;
                }
                break;
            }
            case op_mutate: {
                int n = (int)r.range(1, 4);
                for (int k = 0; k < n; ++k)
                {


                    must("use", [&] { P::mutate(*x[i], m[i], r); });

                }
                break;
            }
            case op_derive: {
                std::unique_ptr<T> y;
                u64 seed = r.next();
                if (attempt(i, [&] { Rng q(seed); y.reset(new T(P::derive(*x[j], q))); }))
                {
                    expect(*y, m[j], "derived copy");
                    must("destruction", [&] { x[i] = std::move(y); });
                    m[i] = M(m[j]);
                }
                break;
            }
            case op_chain: {
                int k = (j + 1) % N;
                if (i != j && i != k)
                {
                    // x[i] = x[j] = x[k]: two assignments, either may fail
                    Outcome o = run_op([&] { *x[i] = *x[j] = *x[k]; }, [&](const Outcome&) {
                        see(*x[i]);
                        see(*x[j]);
                        Rng q(mix2(cur_op->a[3], 78));
                        if (!P::strong)
                        {
                            m[i] = P::random(q);
                            m[j] = P::random(q);
                            must("assignment after a failed assignment", [&] { T y = P::build(m[i]), z = P::build(m[j]); *x[i] = y; *x[j] = z; });
                        }
                        else if (see(*x[j]) == P::show(m[k]))
                        {
                            m[j] = m[k];
                        }
                        verify("failed-copy-effect");
                        return RETRY; });
                    if (o.k == OK)
                    {
                        m[j] = M(m[k]);
                        m[i] = M(m[k]);
                    }
                }
                break;
            }
            case op_boxed: {
                // through a std::vector that grows, and back
                if (attempt(i, [&] {
                        std::vector<T> v;
                        v.push_back(*x[j]);
                        v.push_back(*x[i]);
                        v.push_back(v[0]);
                        v.insert(v.begin(), v[1]);
                        Out out;
                        expect(v[1], m[j], "copy kept in a vector");
                        expect(v[3], m[j], "copy kept in a vector");
                        expect(v[0], m[i], "copy kept in a vector");
                    }))
                {
                    probe("boxed");
                }
                break;
            }
            case op_by_value: {
                auto pass = [](T t) { return t; };
                std::unique_ptr<T> y;
                if (attempt(i, [&] { y.reset(new T(pass(*x[j]))); }))
                {
                    expect(*y, m[j], "object passed and returned by value");
                    u64 seed = r.next();
                    M mm = m[j];
                    must("use", [&] { Rng q(seed); P::mutate(*y, mm, q); });
                    expect(*y, mm, "modified copy");
                    verify("copies-share");
                    must("destruction", [&] { y.reset(); });
                }
                break;
            }
            case op_element: {
                must("element use", [&] { P::from_element(*x[i], m[i], r); });
                break;
            }
            case op_drop:
                must("destruction", [&] { x[i].reset(); x[i].reset(new T(P::build(P::zero()))); });
                m[i] = P::zero();
                break;
        }
        verify(op.code == op_mutate || op.code == op_make || op.code == op_element ? "copies-share" : op.code == op_swap || op.code == op_self_swap || op.code == op_rotate ? "swap" : "wrong-value");
        note(hash_str(P::show(m[i])));
    }
    M taken;
    // moves: a failure may leave what is moved in any valid state
    template <class F>
    Outcome run_move(F f, int a, int b)
    {
        return run_op(f, [&](const Outcome&) {
            for (int k = 0; k < N; ++k)
            {
                if (k != a && k != b)
                {
                    continue;
                }
                see(*x[k]);
                must("assignment after a failed move", [&] { T y = P::build(m[k]); *x[k] = y; });
            }
            verify("failed-copy-effect");
            return RETRY;
        });
    }
    void moved_from(int j)
    {
        taken = m[j];
        if constexpr (std::is_same_v<T, Tup>)
        {
            // components are moved or copied; both are values
            must("assignment to a moved-from tuple", [&] { *x[j] = P::build(m[j]); });
            return;
        }
        m[j] = P::zero();
        S got = see(*x[j]);
        if (got != P::show(m[j]))
        {
            fail("moved-from", "a moved-from %s is %s, expected %s", P::name, got.c_str(), P::show(m[j]).c_str());
        }
        probe("moved_from");
    }
    void expect(const T& t, const M& want, const char* what)
    {
        S got = see(t);
        if (got != P::show(want))
        {
            fail("copy-differs", "%s of a %s is %s, expected %s", what, P::name, got.c_str(), P::show(want).c_str());
        }
    }
    void check_copy(const T& t, int j)
    {
        expect(t, m[j], "a copy");
        bool eq = false;
        must("comparison of a copy", [&] { eq = t == *x[j]; });
        if (!eq)
        {
            fail("copy-differs", "a copy of the %s %s does not equal its source", P::name, P::show(m[j]).c_str());
        }
    }
};

template <class T>
static PoolBase* mk() { return new Pool<T>; }
// the types are compiled in three units, in parallel
typedef PoolBase* (*Maker)();
extern const Maker makers0[], makers1[], makers2[];
#if PART == 0
const Maker makers0[] = {mk<Int>, mk<Str>, mk<List<Elem>>, mk<Fraction>, mk<Complex>};
#elif PART == 1
const Maker makers1[] = {mk<Set<Elem>>, mk<DEE>, mk<List<Str>>, mk<Set<Str>>, mk<DSI>};
#else
const Maker makers2[] = {mk<Deque<Elem>>, mk<List<Int>>, mk<Deque<Int>>, mk<Nested>, mk<Tup>, mk<List<int>>};
#endif

#if PART == 0
static std::vector<std::unique_ptr<PoolBase>> pools;
static const int NT = 16;
static PoolBase* make_pool(int k)
{
    return (k < 5 ? makers0[k] : k < 10 ? makers1[k - 5] : makers2[k - 10])();
}

static void do_reset(const Op& op)
{
    pools.clear();
    tags = 0;
    for (int i = 0; i < 3; ++i)
    {
        pools.emplace_back(make_pool((int)((u64)op.a[i] % NT)));
    }
}
static void do_exec(const Op& op)
{
    if (!pools.empty())
    {
        pools[(u64)op.a[0] % pools.size()]->exec(op);
    }
}
static void do_finish()
{
    pools.clear();
    if (st.elems != 0)
    {
        fail("element-leak", "%lld elements are still alive after everything was destroyed", (long long)st.elems);
    }
}

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    for (int i = 0; i < 3; ++i)
    {
        reset.a[i] = (i64)r.below(NT);
    }
    out.push_back(reset);
    GenFaults gf;
    if (r.chance(75))
    {
        gf.rate = (int)r.range(10, 70);
        gf.kinds = {F_ALLOC, F_ALLOC, F_COPY, F_ALLOC_STICKY, F_ALLOC_SWEEP};
        gf.maxbits = (int)r.range(1, 6);
    }
    std::vector<int> ops;
    for (int k = 1; k < N_OPS; ++k)
    {
        if (r.chance(60))
        {
            ops.push_back(k);
        }
    }
    ops.push_back(op_make);
    ops.push_back(op_mutate);
    int len = (int)r.range(6, thorough ? 90 : 45);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = ops[r.below(ops.size())];
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 20);
        }
        if (op.code != op_make && op.code != op_mutate && op.code != op_element && op.code != op_drop)
        {
            gf.apply(r, op);
        }
        out.push_back(op);
    }
}

namespace sim
{
World world = {"value", names, N_OPS, "digest of (operation, outcome, injected fault, value of the object) over a whole history",
               "Int, Str, Fraction, Complex, List, Deque, Set, Dict, Tuple: construction, copy, move, assignment, swap, element access", "allocator; element type",
               gen, do_reset, do_exec, do_finish, 20000000, 90000, 20000000};
}
#endif
