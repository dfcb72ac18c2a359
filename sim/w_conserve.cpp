// World: mixed histories over every container and value type with every fault kind; conservation of elements
// and memory (C09). No content model: what is judged is that every element constructed is destroyed exactly
// once, that only live elements are ever touched, and that the books balance after every operation.
#include "elem.hpp"
#include <algorithm>
#include <iterator>
#include <memory>
#include <sstream>

using namespace sim;
using namespace pyincpp;

typedef List<Elem> LE;
typedef List<CElem> LC;
typedef List<Str> LS;
typedef List<List<Elem>> LL;
typedef Deque<Elem> DE;
typedef Deque<CElem> DC;
typedef Deque<List<Elem>> DL;
typedef Set<Elem> SE;
typedef Set<CElem> SC;
typedef Set<Set<Elem>> SS;
typedef Dict<Elem, Elem> ME;
typedef Dict<CElem, CElem> MC;
typedef Dict<Elem, List<Elem>> ML;
typedef Dict<Str, Int> MS;
typedef Tuple<Elem, Str, Elem> TE;
typedef Tuple<List<Elem>, CElem> TL;

enum Code { op_RESET, op_le, op_lc, op_ls, op_ll, op_de, op_dc, op_dl, op_se, op_sc, op_ss, op_me, op_mc, op_ml, op_ms, op_te, op_tl, op_str, op_int, op_cross, N_OPS };
static const char* const names[] = {"RESET", "List<Elem>", "List<CopyElem>", "List<Str>", "List<List<Elem>>", "Deque<Elem>", "Deque<CopyElem>", "Deque<List<Elem>>", "Set<Elem>", "Set<CopyElem>", "Set<Set<Elem>>", "Dict<Elem,Elem>", "Dict<CopyElem,CopyElem>", "Dict<Elem,List<Elem>>", "Dict<Str,Int>", "Tuple<Elem,Str,Elem>", "Tuple<List<Elem>,CopyElem>", "Str", "Int", "cross"};

static i64 g_val; // rotating source of values and identities
static const int VALUES = 12;

// ---- construction of random elements (harness side)
template <class T>
struct Mk;
template <bool M>
struct Mk<ElemT<M>>
{
    static ElemT<M> one(Rng& r) { return ElemT<M>((i64)r.below(VALUES), ++g_val); }
};
template <>
struct Mk<Str>
{
    static Str one(Rng& r) { return Str(std::string(r.below(30), (char)('a' + r.below(3)))); }
};
template <>
struct Mk<Int>
{
    static Int one(Rng& r) { return Int((std::string(r.chance(50) ? "-" : "") + "1" + std::string(r.below(30), (char)('0' + r.below(10)))).c_str()); }
};
template <class T>
struct Mk<List<T>>
{
    static List<T> one(Rng& r)
    {
        List<T> l;
        for (int n = (int)r.below(4); n > 0; --n)
        {
            l += Mk<T>::one(r);
        }
        return l;
    }
};
template <class T>
struct Mk<Set<T>>
{
    static Set<T> one(Rng& r)
    {
        Set<T> l;
        for (int n = (int)r.below(4); n > 0; --n)
        {
            l.add(Mk<T>::one(r));
        }
        return l;
    }
};

// ---- counting live elements held (harness side); also touches every one of them
struct Count
{
    i64 n = 0, hollow = 0;
};
template <bool M>
static void tally(const ElemT<M>& e, Count& c)
{
    ++c.n;
    c.hollow += e.v() == MOVED;
}
static void tally(const Str& s, Count&)
{
    volatile char x = 0;
    for (char ch : s)
    {
        x = ch;
    }
    (void)x;
}
static void tally(const Int& i, Count&) { (void)i.digits(); }
template <class A, class B>
static void tally(const std::pair<A, B>& p, Count& c);
template <class T>
static void tally(const List<T>& l, Count& c);
template <class T>
static void tally(const Deque<T>& l, Count& c);
template <class T>
static void tally(const Set<T>& l, Count& c);
template <class K, class V>
static void tally(const Dict<K, V>& l, Count& c);
template <class... Ts>
static void tally(const Tuple<Ts...>& t, Count& c);

template <class C>
static void tally_range(const C& l, Count& c)
{
    int n = 0;
    for (auto it = l.begin(); it != l.end(); ++it, ++n)
    {
        tally(*it, c);
    }
    int m = 0;
    for (auto it = l.rbegin(); it != l.rend(); ++it)
    {
        ++m;
    }
    if (n != l.size() || m != n || l.is_empty() != (n == 0))
    {
        fail("count-mismatch", "a container with size() %d iterates over %d elements, %d backwards", l.size(), n, m);
    }
}
template <class A, class B>
static void tally(const std::pair<A, B>& p, Count& c)
{
    tally(p.first, c);
    tally(p.second, c);
}
template <class T>
static void tally(const List<T>& l, Count& c) { tally_range(l, c); }
template <class T>
static void tally(const Deque<T>& l, Count& c) { tally_range(l, c); }
template <class T>
static void tally(const Set<T>& l, Count& c) { tally_range(l, c); }
template <class K, class V>
static void tally(const Dict<K, V>& l, Count& c) { tally_range(l, c); }
template <class... Ts>
static void tally(const Tuple<Ts...>& t, Count& c)
{
    if constexpr (sizeof...(Ts) > 0)
    {
        tally(t.template get<0>(), c);
        tally(t.rest(), c);
    }
}

template <class T>
static bool less_cb(const T& a, const T& b)
{
    tick_callback(1);
    return a < b;
}
template <class T>
static bool more_cb(const T& a, const T& b)
{
    tick_callback(1);
    return b < a;
}

// single-pass source over a harness vector; counts its steps as fault points
template <class T>
struct Src
{
    typedef T value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const T& reference;
    typedef const T* pointer;
    typedef std::input_iterator_tag iterator_category;
    const std::vector<T>* v = nullptr;
    size_t i = 0;
    const T& operator*() const { return (*v)[i]; }
    const T* operator->() const { return &(*v)[i]; }
    Src& operator++()
    {
        tick_source(1);
        ++i;
        return *this;
    }
    Src operator++(int)
    {
        Src t = *this;
        ++*this;
        return t;
    }
    bool operator==(const Src& o) const { return i == o.i; }
};

struct Seg
{
    static const int N = 3;
    LE le[N];
    LC lc[N];
    LS ls[N];
    LL ll[N];
    DE de[N];
    DC dc[N];
    DL dl[N];
    SE se[N];
    SC sc[N];
    SS ss[N];
    ME me[N];
    MC mc[N];
    ML ml[N];
    MS ms[N];
    std::unique_ptr<TE> te[N];
    std::unique_ptr<TL> tl[N];
    Str str[N];
    Int num[N];
    bool hollow_known = false;
    int limit = 60; // sizes are kept below this

    static int norm(i64 raw, i64 n) { return (int)((u64)raw % n); }

    Count held()
    {
        Count c;
        for (int i = 0; i < N; ++i)
        {
            tally(le[i], c);
            tally(lc[i], c);
            tally(ls[i], c);
            tally(ll[i], c);
            tally(de[i], c);
            tally(dc[i], c);
            tally(dl[i], c);
            tally(se[i], c);
            tally(sc[i], c);
            tally(ss[i], c);
            tally(me[i], c);
            tally(mc[i], c);
            tally(ml[i], c);
            tally(ms[i], c);
            if (te[i])
            {
                tally(*te[i], c);
            }
            if (tl[i])
            {
                tally(*tl[i], c);
            }
            tally(str[i], c);
            tally(num[i], c);
        }
        return c;
    }
    i64 outside = 0; // live elements held by the harness itself

    void audit(const char* when)
    {
        Count c;
        must("inspection", [&] {
            Out out;
            c = held(); });
        if (st.elems != c.n + outside)
        {
            fail("count-mismatch", "%s %s: %lld elements are alive but the objects hold %lld", when, names[cur_op->code], (long long)(st.elems - outside), (long long)c.n);
        }
        note(mix2(c.n, c.hollow));
    }

    // f must leave its results in the pool or destroy them
    template <class F>
    bool go(F f)
    {
        return run(&f, [](void* p) { (*(F*)p)(); });
    }
    bool run(void* object, void (*call)(void*))
    {
        auto f = [=] { call(object); };
        Count before = held();
        outside = st.elems - before.n;
        bool retry = cur_op->a[5] % 2;
        Outcome o = run_op(f, [&](const Outcome&) {
            audit("after a failed operation on");
            if (held().hollow > before.hollow)
            {
                hollow_known = true; // an interrupted reordering may leave moved-from elements
            }
            return retry ? RETRY : GIVE_UP; });
        audit(o.k == OK ? "after an operation on" : "after a failed operation on");
        Count after = held();
        if (o.k == OK && !hollow_known && after.hollow > 0)
        {
            fail("hollow-element", "after a successful operation on %s an object holds a moved-from element", names[cur_op->code]);
        }
        outside = 0;
        return o.k == OK;
    }

    // ---- operations per container
    template <class T>
    void list_op(List<T>* L, const Op& op)
    {
        Rng r(mix2(op.a[3], op.a[4]));
        List<T>&a = L[norm(op.a[0], N)], &b = L[norm(op.a[1], N)];
        std::vector<T> v;
        for (int n = (int)r.below(5); n >= 0; --n)
        {
            v.push_back(Mk<T>::one(r));
        }
        const int n = a.size();
        int at = r.chance(85) && n ? (int)r.range(-n, n - 1) : (int)r.range(-30, 30);
        int i = (int)r.below(n + 2), j = (int)r.below(n + 2), step = (int)r.range(-3, 3);
        int k = (int)r.range(-40, 40);
        if (n > limit)
        {
            go([&] { a.erase(3, n - 3); });
            return;
        }
        const int own = r.chance(25) && n ? (int)r.below(n) : -1;
        auto e = [&]() -> const T& { return own >= 0 && own < a.size() ? a[own] : v[0]; }; // looked up again by a repetition: a failed call may have moved the elements
        switch (norm(op.a[2], 36))
        {
            case 0: go([&] { a.insert(at, e()); }); break;
            case 1: go([&] { a.remove(at); }); break;
            case 2:
            case 3: go([&] { a += e(); }); break;
            case 4: go([&] { a += b; }); break;
            case 5: go([&] { a -= e(); }); break;
            case 6: go([&] { a *= (int)r.range(-1, 3); }); break;
            case 7: go([&] { a /= e(); }); break;
            case 8: go([&] { a >>= k; }); break;
            case 9: go([&] { a <<= k; }); break;
            case 10: go([&] { a.reverse(); }); break;
            case 11: go([&] { a.uniquify(); }); break;
            case 12: go([&] { a.sort(); }); break;
            case 13: go([&] { a.sort(r.s % 2 ? less_cb<T> : more_cb<T>); }); break;
            case 14: go([&] { a.erase(i, j); }); break;
            case 15: go([&] { a.map([](T& x) { tick_callback(2); (void)x; }); }); break;
            case 16: {
                u64 keep = r.next();
                go([&] { a.filter([&](const T& x) { tick_callback(3); return (mix2(keep, (u64)(&x - &*a.begin())) & 1) != 0; }); });
                break;
            }
            case 17: go([&] { a.extend(Src<T>{&v, 0}, Src<T>{&v, v.size()}); }); break;
            case 18: go([&] { a.extend(v.begin(), v.end()); }); break;
            case 19: go([&] { a.extend(b.begin(), b.end()); }); break;
            case 20: go([&] { a.clear(); }); break;
            case 21: go([&] { b = a.slice(i ? -i : 0, j ? -j : 0, step); }); break;
            case 22: go([&] { b = a.slice(i, j, step); }); break;
            case 23: go([&] { b = a + e(); }); break;
            case 24: go([&] { b = a + b; }); break;
            case 25: go([&] { b = a - e(); }); break;
            case 26: go([&] { b = a * (int)(r.s % 3); }); break;
            case 27: go([&] { b = a / e(); }); break;
            case 28: go([&] { b = a; }); break;
            case 29:
                if (&a != &b)
                {
                    go([&] { b = std::move(a); });
                }
                break;
            case 30: go([&] { std::swap(a, b); }); break;
            case 31: go([&] { List<T> t(v.begin(), v.end()); std::swap(t, a); }); break;
            case 32: go([&] { List<T> t{v[0], v.back(), v[0]}; b = t; }); break;
            case 33: go([&] { List<T> t(v); a = std::move(t); }); break;
            case 34:
                go([&] {
                    (void)(a == b);
                    (void)a.contains(e());
                    (void)a.count(e());
                    (void)a.index(e());
                    (void)a.find(e());
                    (void)a[at]; });
                break;
            default:
                go([&] {
                    std::ostringstream os;
                    os << a; });
                break;
        }
    }
    template <class T>
    void deque_op(Deque<T>* L, const Op& op)
    {
        Rng r(mix2(op.a[3], op.a[4]));
        Deque<T>&a = L[norm(op.a[0], N)], &b = L[norm(op.a[1], N)];
        std::vector<T> v;
        for (int n = (int)r.below(40) < 3 ? (r.chance(30) ? 90 : 20) : (int)r.below(5); n >= 0; --n)
        {
            v.push_back(Mk<T>::one(r));
        }
        const int n = a.size();
        int k = (int)r.range(-60, 60);
        if (n > limit + 30)
        {
            bool front = r.chance(60);
            go([&] {
                for (int left = n; left > 4; --left)
                {
                    front ? a.pop_front() : a.pop_back();
                } });
            return;
        }
        const int own = r.chance(25) && n ? (int)r.below(n) : -1;
        auto e = [&]() -> const T& { return own >= 0 && own < a.size() ? a[own] : v[0]; }; // looked up again by a repetition: a failed call may have moved the elements
        if (n > 40 && r.chance(20))
        {
            // drain a part of it, from either end
            int many = (int)r.range(1, n);
            bool front = r.chance(60);
            go([&] {
                for (int left = many; left > 0 && !a.is_empty(); --left)
                {
                    T x = front ? a.pop_front() : a.pop_back();
                } });
            return;
        }
        switch (norm(op.a[2], 24))
        {
            case 0:
            case 1: go([&] { a.push_back(e()); }); break;
            case 2:
            case 3: go([&] { a.push_front(e()); }); break;
            case 4: go([&] { a.pop_back(); }); break;
            case 5: go([&] { a.pop_front(); }); break;
            case 6: go([&] { a.extend_back(v.begin(), v.end()); }); break;
            case 7: go([&] { a.extend_front(v.begin(), v.end()); }); break;
            case 8: go([&] { a.extend_back(Src<T>{&v, 0}, Src<T>{&v, v.size()}); }); break;
            case 9: go([&] { a.extend_front(Src<T>{&v, 0}, Src<T>{&v, v.size()}); }); break;
            case 10: go([&] { a >>= k; }); break;
            case 11: go([&] { a <<= k; }); break;
            case 12: go([&] { a.reverse(); }); break;
            case 13: go([&] { a.clear(); }); break;
            case 14: go([&] { b = a; }); break;
            case 15:
                if (&a != &b)
                {
                    go([&] { b = std::move(a); });
                }
                break;
            case 16: go([&] { std::swap(a, b); }); break;
            case 17: go([&] { Deque<T> t(v.begin(), v.end()); b = t; }); break;
            case 18: go([&] { Deque<T> t{v[0], v.back(), v[0]}; std::swap(t, b); }); break;
            case 19:
                go([&] {
                    (void)(a == b);
                    (void)a.front();
                    (void)a.back();
                    (void)a[k]; });
                break;
            case 20:
                if (&a != &b)
                {
                    go([&] { a.extend_back(b.begin(), b.end()); });
                }
                break;
            case 21: go([&] { Deque<T> t(a); t.push_front(e()); t.pop_back(); b = std::move(t); }); break;
            case 22:
                go([&] {
                    if (n)
                    {
                        T x = a.pop_front();
                        a.push_back(x);
                    } });
                break;
            default:
                go([&] {
                    std::ostringstream os;
                    os << a; });
                break;
        }
    }
    template <class T>
    void set_op(Set<T>* L, const Op& op)
    {
        Rng r(mix2(op.a[3], op.a[4]));
        Set<T>&a = L[norm(op.a[0], N)], &b = L[norm(op.a[1], N)], &c = L[norm(op.a[0] + 1, N)];
        std::vector<T> v;
        for (int n = (int)r.below(5); n >= 0; --n)
        {
            v.push_back(Mk<T>::one(r));
        }
        const int n = a.size();
        const int own = r.chance(30) && n ? (int)r.below(n) : -1;
        auto e = [&]() -> const T& { return own >= 0 && own < a.size() ? *std::next(a.begin(), own) : v[0]; }; // looked up again by a repetition: a failed call may have moved the elements
        switch (norm(op.a[2], 28))
        {
            case 0:
            case 1:
            case 2: go([&] { a.add(e()); }); break;
            case 3: go([&] { a.remove(e()); }); break;
            case 4: go([&] { a.pop(); }); break;
            case 5: go([&] { a &= b; }); break;
            case 6: go([&] { a |= b; }); break;
            case 7: go([&] { a -= b; }); break;
            case 8: go([&] { a ^= b; }); break;
            case 9: go([&] { a.extend(v.begin(), v.end()); }); break;
            case 10: go([&] { a.extend(Src<T>{&v, 0}, Src<T>{&v, v.size()}); }); break;
            case 11: go([&] { a.clear(); }); break;
            case 12: go([&] { c = a & b; }); break;
            case 13: go([&] { c = a | b; }); break;
            case 14: go([&] { c = a - b; }); break;
            case 15: go([&] { c = a ^ b; }); break;
            case 16: go([&] { b = a; }); break;
            case 17:
                if (&a != &b)
                {
                    go([&] { b = std::move(a); });
                }
                break;
            case 18: go([&] { std::swap(a, b); }); break;
            case 19: go([&] { Set<T> t(v.begin(), v.end()); b = t; }); break;
            case 20: go([&] { Set<T> t{v[0], v.back(), v[0]}; std::swap(t, b); }); break;
            case 21: go([&] { (void)(a == b), (void)(a < b), (void)(a <= b), (void)(a > b), (void)(a >= b); }); break;
            case 22: go([&] { a.min(); }); break;
            case 23: go([&] { a.max(); }); break;
            case 24: go([&] { (void)a.contains(e()), (void)a.find(e()); }); break;
            case 25: go([&] { a.extend(b.begin(), b.end()); }); break;
            case 26: go([&] { std::set<T> t(v.begin(), v.end()); Set<T> u(t); b = std::move(u); }); break;
            default:
                go([&] {
                    std::ostringstream os;
                    os << a; });
                break;
        }
    }
    template <class K, class V>
    void dict_op(Dict<K, V>* L, const Op& op)
    {
        Rng r(mix2(op.a[3], op.a[4]));
        Dict<K, V>&a = L[norm(op.a[0], N)], &b = L[norm(op.a[1], N)];
        std::vector<std::pair<K, V>> v;
        for (int n = (int)r.below(5); n >= 0; --n)
        {
            v.push_back(std::pair<K, V>(Mk<K>::one(r), Mk<V>::one(r)));
        }
        const int n = a.size();
        auto it = n ? std::next(a.begin(), r.below(n)) : a.begin();
        bool own = r.chance(30) && n;
        const K& key = own ? it->first : v[0].first;
        const V& val = own ? it->second : v[0].second;
        typedef std::pair<K, V> E;
        switch (norm(op.a[2], 24))
        {
            case 0:
            case 1:
            case 2: go([&] { a.add(key, val); }); break;
            case 3: go([&] { a.remove(key); }); break;
            case 4: go([&] { a.pop(); }); break;
            case 5: go([&] { a[key] = val; }); break;
            case 6: go([&] { (void)std::as_const(a)[key]; }); break;
            case 7: go([&] { (void)a.get(key, v[0].second); }); break;
            case 8: go([&] { a.extend(v.begin(), v.end()); }); break;
            case 9: go([&] { a.extend(Src<E>{&v, 0}, Src<E>{&v, v.size()}); }); break;
            case 10: go([&] { a.clear(); }); break;
            case 11: go([&] { b = a; }); break;
            case 12:
                if (&a != &b)
                {
                    go([&] { b = std::move(a); });
                }
                break;
            case 13: go([&] { std::swap(a, b); }); break;
            case 14: go([&] { Dict<K, V> t(v.begin(), v.end()); b = t; }); break;
            case 15: go([&] { Dict<K, V> t{Pair<K, V>(v[0].first, v[0].second), Pair<K, V>(v.back().first, v[0].second)}; std::swap(t, b); }); break;
            case 16: go([&] { (void)(a == b); }); break;
            case 17: go([&] { a.min(); }); break;
            case 18: go([&] { a.max(); }); break;
            case 19: go([&] { (void)a.contains(key), (void)a.find(key); }); break;
            case 20: go([&] { a.keys(); }); break;
            case 21: go([&] { a.values(); }); break;
            case 22:
                if constexpr (!std::is_same_v<K, Str>)
                {
                    go([&] { a.items(); });
                }
                break;
            default:
                go([&] {
                    std::ostringstream os;
                    os << a; });
                break;
        }
    }
    template <class T, class A, class B, class... C>
    void tuple_op(std::unique_ptr<T>* L, const Op& op, const A& x, const B& y, const C&... z)
    {
        std::unique_ptr<T>&a = L[norm(op.a[0], N)], &b = L[norm(op.a[1], N)];
        switch (norm(op.a[2], 9))
        {
            case 0:
            case 1: go([&] { a.reset(new T(x, y, z...)); }); break;
            case 2:
                if (a)
                {
                    go([&] { b.reset(new T(*a)); });
                }
                break;
            case 3:
                if (a && b)
                {
                    go([&] { *a = *b; });
                }
                break;
            case 4:
                if (a && b && a != b)
                {
                    // a moved-from tuple is only good for destruction and assignment
                    go([&] {
                        *a = std::move(*b);
                        b.reset(); });
                }
                break;
            case 5:
                if (a && b)
                {
                    go([&] { (void)(*a == *b), (void)(*a != *b); });
                }
                break;
            case 6:
                if (a)
                {
                    go([&] {
                        std::ostringstream os;
                        os << *a; });
                }
                break;
            case 7:
                if (a && b && a != b)
                {
                    go([&] { std::swap(*a, *b); });
                }
                break;
            default: go([&] { a.reset(new T(make_tuple(x, y, z...))); }); break;
        }
    }
    void str_op(const Op& op)
    {
        Rng r(mix2(op.a[3], op.a[4]));
        Str&a = str[norm(op.a[0], N)], &b = str[norm(op.a[1], N)];
        if (a.size() > 200)
        {
            go([&] { a = a.slice(0, 20); });
            return;
        }
        const int n = a.size();
        Str e = Mk<Str>::one(r);
        int i = (int)r.range(-n - 1, n + 1), j = (int)r.range(-n - 1, n + 1);
        switch (norm(op.a[2], 22))
        {
            case 0: go([&] { b = a + e; }); break;
            case 1: go([&] { b = a + b; }); break;
            case 2: go([&] { b = a * (int)(r.s % 3); }); break;
            case 3: go([&] { b = a.slice(i, j, (int)(r.s % 5) - 2); }); break;
            case 4: go([&] { b = a.replace("a", e); }); break;
            case 5: go([&] { b = a.replace("", "xy"); }); break;
            case 6: go([&] { ls[0] = a.split("a", r.s % 2); }); break;
            case 7: go([&] { b = e.join(ls[0]); }); break;
            case 8: go([&] { b = a.strip(); }); break;
            case 9: go([&] { b = a.reverse(); }); break;
            case 10: go([&] { b = a >> i; }); break;
            case 11: go([&] { b = a << j; }); break;
            case 12: go([&] { b = a.erase(i, j); }); break;
            case 13: go([&] { b = Str("{} and {}, {}").format(a, i, num[0]); }); break;
            case 14: go([&] { num[0] = a.to_integer(16); }); break;
            case 15: go([&] { b = a; }); break;
            case 16:
                if (&a != &b)
                {
                    go([&] { b = std::move(a); });
                }
                break;
            case 17: go([&] { std::swap(a, b); }); break;
            case 18: go([&] { b = a.lower(); }); break;
            case 19: go([&] { b = a.upper(); }); break;
            case 20: go([&] { (void)a.count(e), (void)a.find(e), (void)a[i], (void)(a == b); }); break;
            default:
                go([&] {
                    std::istringstream is(std::string(40, 'z') + "\nq");
                    is >> a; });
                break;
        }
    }
    void int_op(const Op& op)
    {
        Rng r(mix2(op.a[3], op.a[4]));
        Int&a = num[norm(op.a[0], N)], &b = num[norm(op.a[1], N)];
        if (a.digits() > 80)
        {
            go([&] { a = 7; });
            return;
        }
        Int e = Mk<Int>::one(r);
        switch (norm(op.a[2], 22))
        {
            case 0: go([&] { a += e; }); break;
            case 1: go([&] { a -= b; }); break;
            case 2: go([&] { a *= e; }); break;
            case 3: go([&] { a /= b; }); break;
            case 4: go([&] { a %= e; }); break;
            case 5: go([&] { b = a + e; }); break;
            case 6: go([&] { b = a * b; }); break;
            case 7: go([&] { b = -a; }); break;
            case 8: go([&] { b = a.abs(); }); break;
            case 9: go([&] { ++a; }); break;
            case 10: go([&] { --a; }); break;
            case 11: go([&] { b = Int::sqrt(a); }); break;
            case 12: go([&] { b = Int::pow(a, 3); }); break;
            case 13: go([&] { b = Int::pow(e, 5, a); }); break;
            case 14: go([&] { b = Int::gcd(a, e); }); break;
            case 15: go([&] { b = a; }); break;
            case 16:
                if (&a != &b)
                {
                    go([&] { b = std::move(a); });
                }
                break;
            case 17: go([&] { std::swap(a, b); }); break;
            case 18: go([&] { a = Int("123x"); }); break;
            case 19: go([&] { a = Int(std::to_string(r.s).c_str()); }); break;
            case 20: go([&] { a = Int::random((int)(r.s % 40)); }); break;
            default:
                go([&] {
                    std::istringstream is("-123456789012345678901234567890 x");
                    is >> a >> b; });
                break;
        }
    }
    void cross_op(const Op& op)
    {
        Rng r(mix2(op.a[3], op.a[4]));
        int i = norm(op.a[0], N), j = norm(op.a[1], N);
        switch (norm(op.a[2], 16))
        {
            case 0: go([&] { le[i] = LE(se[j].begin(), se[j].end()); }); break;
            case 1: go([&] { se[i] = SE(le[j].begin(), le[j].end()); }); break;
            case 2: go([&] { de[i] = DE(le[j].begin(), le[j].end()); }); break;
            case 3: go([&] { le[i].extend(de[j].rbegin(), de[j].rend()); }); break;
            case 4: go([&] { ll[i] += le[j]; }); break;
            case 5: go([&] { ml[i].add(Elem(r.s % 7, 1), le[j]); }); break;
            case 6: go([&] { dl[i].push_front(le[j]); }); break;
            case 7: go([&] { ss[i].add(se[j]); }); break;
            case 8: go([&] { se[i] = me[j].keys(); }); break;
            case 9: go([&] { se[i] |= me[j].values(); }); break;
            case 10:
                if (!ml[i].is_empty())
                {
                    go([&] { ml[i][ml[i].begin()->first] += Elem(3, 3); });
                }
                break;
            case 11:
                if (!ll[i].is_empty())
                {
                    go([&] { le[j] = ll[i].remove(-1); });
                }
                break;
            case 12:
                if (!ll[i].is_empty())
                {
                    go([&] { ll[i][0] += ll[i][-1]; });
                }
                break;
            case 13:
                if (!dl[i].is_empty())
                {
                    go([&] { dl[i].front() = le[j]; });
                }
                break;
            case 14: go([&] { ls[i] += str[j]; }); break;
            default: go([&] { ms[i].add(str[j], num[i]); }); break;
        }
        // nested objects stay small
        if (le[i].size() > limit)
        {
            le[i].clear();
        }
        if (ll[i].size() > 12)
        {
            ll[i].clear();
        }
        if (dl[i].size() > 12)
        {
            dl[i].clear();
        }
    }

    // some histories start from containers that are not small
    void fill(i64 n, Rng& r)
    {
        limit = (int)n * 2 + 60;
        must("filling the containers", [&] {
            std::vector<Elem> v;
            std::vector<CElem> w;
            std::vector<Str> s;
            std::vector<std::pair<Elem, Elem>> p;
            std::vector<std::pair<CElem, CElem>> q;
            for (i64 i = 0; i < n; ++i)
            {
                i64 x = (i64)r.below(n * 2);
                v.push_back(Elem(x, ++g_val));
                w.push_back(CElem(x, ++g_val));
                s.push_back(Mk<Str>::one(r));
                p.push_back({Elem(x, ++g_val), Elem(x, ++g_val)});
                q.push_back({CElem(x, ++g_val), CElem(x, ++g_val)});
            }
            int k = (int)r.below(N);
            le[k].extend(v.begin(), v.end());
            lc[k].extend(w.begin(), w.end());
            ls[k].extend(s.begin(), s.end());
            de[k].extend_back(v.begin(), v.end());
            dc[k].extend_back(w.begin(), w.end());
            se[k].extend(v.begin(), v.end());
            sc[k].extend(w.begin(), w.end());
            me[k].extend(p.begin(), p.end());
            mc[k].extend(q.begin(), q.end()); });
    }
    void exec(const Op& op)
    {
        Rng r(mix2(op.a[4], op.a[3]));
        switch (op.code)
        {
            case op_le: list_op(le, op); break;
            case op_lc: list_op(lc, op); break;
            case op_ls: list_op(ls, op); break;
            case op_ll: list_op(ll, op); break;
            case op_de: deque_op(de, op); break;
            case op_dc: deque_op(dc, op); break;
            case op_dl: deque_op(dl, op); break;
            case op_se: set_op(se, op); break;
            case op_sc: set_op(sc, op); break;
            case op_ss: set_op(ss, op); break;
            case op_me: dict_op(me, op); break;
            case op_mc: dict_op(mc, op); break;
            case op_ml: dict_op(ml, op); break;
            case op_ms: dict_op(ms, op); break;
            case op_te: tuple_op(te, op, Mk<Elem>::one(r), Mk<Str>::one(r), Mk<Elem>::one(r)); break;
            case op_tl: tuple_op(tl, op, Mk<LE>::one(r), Mk<CElem>::one(r)); break;
            case op_str: str_op(op); break;
            case op_int: int_op(op); break;
            case op_cross: cross_op(op); break;
        }
        audit("between operations, last on");
    }
};

static std::unique_ptr<Seg> seg;
static void do_reset(const Op& op)
{
    g_val = 0;
    seg.reset(new Seg);
    if (op.a[0])
    {
        Rng r(op.a[1]);
        seg->fill(op.a[0], r);
    }
}
static void do_exec(const Op& op)
{
    if (seg)
    {
        seg->exec(op);
    }
}
static void do_finish() { seg.reset(); }

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    if (r.chance(3))
    {
        probe("large_start");
        reset.a[0] = r.range(20, 300);
        reset.a[1] = (i64)r.below(1 << 20);
    }
    out.push_back(reset);
    GenFaults gf;
    static const int all[] = {F_ALLOC, F_ALLOC_STICKY, F_ALLOC_SWEEP, F_NOTHROW, F_COPY, F_COMPARE, F_CALLBACK, F_SOURCE};
    if (r.chance(85))
    {
        gf.rate = (int)r.range(10, 60);
        for (int k : all)
        {
            if (r.chance(60))
            {
                gf.kinds.push_back(k);
            }
        }
        gf.maxbits = (int)r.range(1, reset.a[0] ? 9 : 5);
    }
    std::vector<int> ops;
    int focus = (int)r.range(1, 4);
    for (int k = 0; k < focus; ++k)
    {
        ops.push_back((int)r.range(1, N_OPS - 1));
    }
    if (r.chance(30))
    {
        ops.push_back(op_cross);
        ops.push_back(op_le);
        ops.push_back(op_se);
    }
    int len = (int)r.range(8, thorough ? 90 : 50);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = ops[r.below(ops.size())];
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 20);
        }
        gf.apply(r, op);
        out.push_back(op);
    }
}

namespace sim
{
World world = {"conserve", names, N_OPS, "digest of (operation, outcome, injected fault, live elements held) over a whole history",
               "all container and value classes, alone and nested, and the standard containers underneath them", "allocator, element types (copy and comparison failures), callbacks, single-pass sources",
               gen, do_reset, do_exec, do_finish, 6000000, 150000, 40000000};
}
