// World: Tuples of many element types along histories of construction, copies, moves, comparison and printing, with
// failing allocations, element copies, comparisons and printing (C29).
#include "elem.hpp"
#include <algorithm>
#include <memory>
#include <numeric>
#include <sstream>
#include <tuple>

using namespace sim;
using namespace pyincpp;
typedef std::string S;

#define OPS(X) X(RESET) X(build) X(make_tuple) X(from_elements) X(copy_new) X(copy_assign) X(self_assign) X(move_new) X(move_assign) X(swap) X(get) X(rest) X(compare) X(cross) X(print) X(in_list) X(by_value) X(deque_of)
enum Code
{
#define X(n) op_##n,
    OPS(X)
#undef X
        N_OPS
};
static const char* const names[] = {
#define X(n) #n,
    OPS(X)
#undef X
};

// ---------------------------------------------------------------- element values: a function of one small number
// Numbers that differ by multiples of TAG give elements that compare equal and yet can be told apart, where the type has such.
static const i64 TAG = 1000;
template <class T>
struct El;
struct Eq
{
    static bool eq(i64 a, i64 b) { return a == b; }
};
template <>
struct El<int> : Eq
{
    static int make(i64 v) { return (int)v; }
    static bool is(const int& t, i64 v) { return t == (int)v; }
    static S text(i64 v) { return fmt("%lld", (long long)v); }
};
template <>
struct El<bool> : Eq
{
    static bool make(i64 v) { return v % 2 != 0; }
    static bool is(const bool& t, i64 v) { return t == (v % 2 != 0); }
    static S text(i64 v) { return v % 2 ? "1" : "0"; }
    static bool eq(i64 a, i64 b) { return a % 2 == b % 2; }
};
template <>
struct El<double> : Eq
{
    static double make(i64 v) { return (double)v / 4; }
    static bool is(const double& t, i64 v) { return t == (double)v / 4; }
    static S text(i64 v) { return fmt("%g", (double)v / 4); }
};
template <bool M>
struct El<ElemT<M>> : Eq
{
    static ElemT<M> make(i64 v) { return ElemT<M>(v % TAG, v); }
    static bool is(const ElemT<M>& t, i64 v) { return t.v() == v % TAG && t.tag() == v; }
    static S text(i64 v) { return fmt("e%lld", (long long)(v % TAG)); }
    static bool eq(i64 a, i64 b) { return a % TAG == b % TAG; }
};
template <>
struct El<Str> : Eq
{
    static S raw(i64 v) { return v % 3 == 0 ? fmt("s%lld", (long long)v) : fmt("a string that does not fit the small buffer, %lld", (long long)v); }
    static Str make(i64 v) { return Str(raw(v)); }
    static bool is(const Str& t, i64 v) { return t == Str(raw(v)); }
    static S text(i64 v) { return "\"" + raw(v) + "\""; }
};
template <>
struct El<Int> : Eq
{
    static S text(i64 v) { return v == 3 ? S("0") : fmt("%s%lld0000000000000000000007", v < 3 ? "-" : "", (long long)(v < 3 ? 3 - v : v)); } // ascending
    static Int make(i64 v) { return Int(text(v).c_str()); }
    static bool is(const Int& t, i64 v) { return t == make(v); }
};
template <>
struct El<Fraction> : Eq
{
    static Fraction make(i64 v) { return Fraction((int)v - 3, 6); }
    static bool is(const Fraction& t, i64 v) { return t.numerator() * 6 == (v - 3) * t.denominator(); }
    static S text(i64 v)
    {
        i64 n = v - 3, g = std::gcd(n, (i64)6);
        return 6 / g == 1 ? fmt("%lld", (long long)(n / g)) : fmt("%lld/%lld", (long long)(n / g), (long long)(6 / g));
    }
};
template <>
struct El<Complex> : Eq
{
    static double re(i64 v) { return (double)(v % TAG); }
    static double im(i64 v) { return v % TAG == 2 ? (double)(v / TAG) * 1e-18 : 0.5 * (double)v - 1; }
    static Complex make(i64 v) { return Complex(re(v), im(v)); }
    static bool is(const Complex& t, i64 v) { return t.real() == re(v) && t.imag() == im(v); }
    static S text(i64 v) { return fmt("(%g%c%gj)", re(v), im(v) < 0 ? '-' : '+', im(v) < 0 ? -im(v) : im(v)); }
    static bool eq(i64 a, i64 b) { return a % TAG == b % TAG && (a == b || a % TAG == 2); }
};
template <class T>
static S seq_text(i64 v, int n, char open, char close)
{
    S s(1, open);
    for (int k = 0; k < n; ++k)
    {
        s += (k ? ", " : "") + El<T>::text(v + k);
    }
    return s + close;
}
template <class C, class T, char OPEN, char CLOSE>
struct ElSeq : Eq // v + 0, v + 1, ... : v % 4 elements, so containers of equal length may differ and the other way round
{
    static int len(i64 v) { return (int)(v % 4); }
    static C make(i64 v)
    {
        std::vector<T> e;
        for (int k = 0; k < len(v); ++k)
        {
            e.push_back(El<T>::make(v + k));
        }
        return C(e.begin(), e.end());
    }
    static bool is(const C& c, i64 v)
    {
        int k = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++k)
        {
            if (k >= len(v) || !El<T>::is(*it, v + k))
            {
                return false;
            }
        }
        return k == len(v) && c.size() == k;
    }
    static S text(i64 v) { return seq_text<T>(v, len(v), OPEN, CLOSE); }
    static bool eq(i64 a, i64 b)
    {
        bool r = len(a) == len(b);
        for (int k = 0; r && k < len(a); ++k)
        {
            r = El<T>::eq(a + k, b + k);
        }
        return r;
    }
};
template <class T>
struct El<List<T>> : ElSeq<List<T>, T, '[', ']'>
{
};
template <class T>
struct El<Deque<T>> : ElSeq<Deque<T>, T, '<', '>'>
{
};
template <class T>
struct El<Set<T>> : ElSeq<Set<T>, T, '{', '}'>
{
};
template <>
struct El<Dict<int, Str>> : Eq
{
    static Dict<int, Str> make(i64 v)
    {
        Dict<int, Str> d;
        for (int k = 0; k < v % 3; ++k)
        {
            d.add((int)v + k, El<Str>::make(v + k));
        }
        return d;
    }
    static bool is(const Dict<int, Str>& d, i64 v)
    {
        int k = 0;
        for (auto it = d.begin(); it != d.end(); ++it, ++k)
        {
            if (k >= v % 3 || it->first != v + k || !El<Str>::is(it->second, v + k))
            {
                return false;
            }
        }
        return k == v % 3;
    }
    static S text(i64 v)
    {
        S s = "{";
        for (int k = 0; k < v % 3; ++k)
        {
            s += (k ? ", " : "") + fmt("%lld: ", (long long)v + k) + El<Str>::text(v + k);
        }
        return s + "}";
    }
    static bool eq(i64 a, i64 b) { return a % 3 == 0 ? b % 3 == 0 : a == b; }
};

template <class... Ts, size_t... I>
static bool all_are(const Tuple<Ts...>& t, const i64* v, std::index_sequence<I...>)
{
    return (El<Ts>::is(t.template get<(int)I>(), v[I]) && ... && true);
}
template <class... Ts>
static S tuple_text(const i64* v)
{
    if constexpr (sizeof...(Ts) == 0)
    {
        return "()";
    }
    else
    {
        S s;
        size_t k = 0;
        ((s += (k ? ", " : "") + El<Ts>::text(v[k]), ++k), ...);
        return "(" + s + (sizeof...(Ts) == 1 ? ",)" : ")");
    }
}
template <class... Ts>
struct El<Tuple<Ts...>> : Eq
{
    static const int K = sizeof...(Ts);
    struct Vals
    {
        i64 v[K + 1];
        explicit Vals(i64 x)
        {
            for (int k = 0; k < K; ++k)
            {
                v[k] = x + k;
            }
        }
    };
    template <size_t... I>
    static Tuple<Ts...> make_(const Vals& v, std::index_sequence<I...>)
    {
        return Tuple<Ts...>(El<Ts>::make(v.v[I])...);
    }
    static Tuple<Ts...> make(i64 v) { return make_(Vals(v), std::index_sequence_for<Ts...>()); }
    static bool is(const Tuple<Ts...>& t, i64 v) { return all_are(t, Vals(v).v, std::index_sequence_for<Ts...>()); }
    static S text(i64 v) { return tuple_text<Ts...>(Vals(v).v); }
    static bool eq(i64 a, i64 b)
    {
        bool r = true;
        int k = 0;
        ((r = r && El<Ts>::eq(a + k, b + k), ++k), ...);
        return r;
    }
};

// an output device of the harness: never fails and never allocates as code under test
struct Sink : std::streambuf
{
    S got;
    int_type overflow(int_type c) override
    {
        Out out;
        got += (char)c;
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        Out out;
        got.append(s, n);
        return n;
    }
};

// ---------------------------------------------------------------- pools
struct Any
{
    virtual ~Any() {}
    virtual void exec(const Op& op) = 0;
    virtual void verify(const char* cls, int skip = -1) = 0;
};

static i64 domain = 8;

template <class Tup>
struct Pool;
template <class... Ts>
struct Pool<Tuple<Ts...>> : Any
{
    typedef Tuple<Ts...> T;
    static const int K = sizeof...(Ts), N = 3;
    typedef std::index_sequence_for<Ts...> Idx;
    struct M
    {
        i64 v[K + 1] = {};
    };
    std::unique_ptr<T> x[N];
    M m[N];

    static M random(Rng& r)
    {
        M n;
        for (int k = 0; k < K; ++k)
        {
            n.v[k] = (i64)r.below(domain) + TAG * (r.chance(70) ? 0 : (i64)r.below(3));
        }
        return n;
    }
    static bool eq(const M& a, const M& b)
    {
        bool r = true;
        int k = 0;
        ((r = r && El<Ts>::eq(a.v[k], b.v[k]), ++k), ...);
        return r;
    }
    static S text(const M& a) { return tuple_text<Ts...>(a.v); }
    typedef std::tuple<Ts...> Src; // the harness's own values
    template <size_t... I>
    static Src* source_(const M& a, std::index_sequence<I...>)
    {
        return new Src(El<Ts>::make(a.v[I])...);
    }
    static std::unique_ptr<Src> source(const M& a)
    {
        std::unique_ptr<Src> s;
        must("construction of element values", [&] { Out out; s.reset(source_(a, Idx())); });
        return s;
    }
    template <size_t... I>
    static bool source_is(const Src& s, const M& a, std::index_sequence<I...>)
    {
        return (El<Ts>::is(std::get<I>(s), a.v[I]) && ... && true);
    }
    template <size_t... I>
    static bool is_(const T& t, const M& a, std::index_sequence<I...> i)
    {
        return t.size() == K && all_are(t, a.v, i);
    }
    static bool is(const T& t, const M& a)
    {
        bool r = false;
        must("inspection", [&] { r = is_(t, a, Idx()); });
        return r;
    }

    Pool()
    {
        Rng r(mix2((u64)domain, K));
        for (int i = 0; i < N; ++i)
        {
            renew(i, r);
        }
    }
    void renew(int i, Rng& r)
    {
        m[i] = random(r);
        auto s = source(m[i]);
        must("construction", [&] { x[i].reset(std::apply([](const Ts&... v) { return new T(v...); }, *s)); });
        must("destruction of element values", [&] { Out out; s.reset(); });
    }
    void verify(const char* cls, int skip = -1) override
    {
        for (int i = 0; i < N; ++i)
        {
            if (i != skip && !is(*x[i], m[i]))
            {
                S now;
                must("printing", [&] { Sink k; std::ostream os(&k); os << *x[i]; Out out; now = k.got; });
                fail(cls, "after %s: tuple %d is %s, expected %s", names[cur_op->code], i, show(now).c_str(), show(text(m[i])).c_str());
            }
        }
        u64 h = K;
        for (int k = 0; k < K; ++k)
        {
            h = mix2(h, (u64)m[0].v[k]);
        }
        note(h);
    }
    static void never(const Outcome& o)
    {
        if (o.k == RTE)
        {
            fail("unexpected-refusal", "%s was refused: %s", names[cur_op->code], o.what.c_str());
        }
    }
    // tuple d (and e) may have any value after a failure: they must be usable
    void recover(const Op& op, int d, int e = -1)
    {
        Rng r(mix2(op.a[3], 41));
        for (int i : {d, e})
        {
            if (i < 0)
            {
                continue;
            }
            const int other = (i + 1) % N == e || (i + 1) % N == d ? (i + 2) % N == d || (i + 2) % N == e ? -1 : (i + 2) % N : (i + 1) % N;
            if (other >= 0 && r.chance(50))
            {
                must("assignment to a tuple after a failed assignment", [&] { *x[i] = *x[other]; });
                m[i] = m[other];
            }
            else
            {
                must("destruction of a tuple after a failed assignment", [&] { x[i].reset(); });
                renew(i, r);
            }
        }
        verify("recovered-tuple");
    }

    // a new tuple for slot i from f(), expected to be want
    template <class F>
    void create(int i, const M& want, F f)
    {
        T* y = nullptr;
        const i64 before = st.elems;
        Outcome o = run_op([&] { y = f(); }, [&](const Outcome&) {
            verify("failed-construction-effect");
            if (st.elems != before)
            {
                fail("failed-construction-leak", "a failed construction left %lld elements behind", (long long)(st.elems - before));
            }
            return RETRY; });
        never(o);
        if (!is(*y, want))
        {
            S now;
            must("printing", [&] { Sink k; std::ostream os(&k); os << *y; Out out; now = k.got; });
            fail("wrong-value", "%s gives %s, expected %s", names[cur_op->code], show(now).c_str(), show(text(want)).c_str());
        }
        verify("wrong-value");
        must("destruction", [&] { x[i].reset(y); });
        m[i] = want;
    }
    template <size_t... I>
    void get_all(int i, std::index_sequence<I...>)
    {
        // values outlive the expression they come from
        auto one = [&]<size_t J>(std::integral_constant<size_t, J>) {
            bool ok = true;
            Outcome o = run_op([&] {
                const auto& a = x[i]->template get<(int)J>();
                ok = El<std::tuple_element_t<J, Src>>::is(a, m[i].v[J]);
                std::tuple_element_t<J, Src> b = x[i]->template get<(int)J>();
                ok = ok && El<std::tuple_element_t<J, Src>>::is(b, m[i].v[J]); },
                               [&](const Outcome&) { verify("failed-read-effect"); return RETRY; });
            never(o);
            if (!ok)
            {
                fail("wrong-element", "get<%d>() of %s gives another value", (int)J, show(text(m[i])).c_str());
            }
        };
        (one(std::integral_constant<size_t, I>()), ...);
    }
    template <size_t... I>
    T* from_get(int i, int j, std::index_sequence<I...>)
    {
        return new T((I % 2 ? x[i] : x[j])->template get<(int)I>()...);
    }
    template <class U>
    void compare(int i, const U& u, bool want)
    {
        bool a = false, b = false, c = false, d = false;
        Outcome o = run_op([&] {
            a = *x[i] == u;
            b = *x[i] != u;
            c = u == *x[i];
            d = u != *x[i]; },
                           [&](const Outcome&) { verify("failed-comparison-effect"); return RETRY; });
        never(o);
        if (a != want || c != want || b == want || d == want)
        {
            S other;
            must("printing", [&] { Sink k; std::ostream os(&k); os << u; Out out; other = k.got; });
            fail("wrong-comparison", "%s against %s (%s): == %d, != %d, reversed == %d, != %d", show(text(m[i])).c_str(), show(other).c_str(), want ? "equal" : "not equal", a, b, c, d);
        }
    }
    template <class U>
    void cross(Any* other, int i, int j);

    template <class H, class... R>
    void rest(int i, const Tuple<R...>& r)
    {
        const i64* v = m[i].v + 1;
        bool ok = false;
        Outcome o = run_op([&] {
            Tuple<R...> copy(r);
            ok = r.size() == (int)sizeof...(R) && all_are(r, v, std::index_sequence_for<R...>()) && all_are(copy, v, std::index_sequence_for<R...>()); },
                           [&](const Outcome&) { verify("failed-read-effect"); return RETRY; });
        never(o);
        if (!ok)
        {
            fail("wrong-rest", "rest() of %s holds other values", show(text(m[i])).c_str());
        }
        if constexpr (sizeof...(R) > 0)
        {
            S want = tuple_text<R...>(v), got;
            must("printing", [&] { Sink k; std::ostream os(&k); os << r; Out out; got = k.got; });
            if (got != want)
            {
                fail("wrong-text", "rest() prints %s, expected %s", show(got).c_str(), show(want).c_str());
            }
        }
    }

    void exec(const Op& op) override
    {
        Rng r(mix2(op.a[3], op.a[4]));
        const int i = (int)((u64)op.a[1] % N), j = (int)((u64)op.a[2] % N);
        switch (op.code)
        {
            case op_build:
            case op_make_tuple: {
                M want = r.chance(30) ? m[j] : random(r);
                auto s = source(want);
                create(i, want, [&] { return std::apply([&](const Ts&... v) {
                    if constexpr (K > 0)
                    {
                        if (op.code == op_make_tuple)
                        {
                            return new T(make_tuple(v...));
                        }
                    }
                    return new T(v...); }, *s); });
                bool kept = false;
                must("inspection", [&] { Out out; kept = source_is(*s, want, Idx()); s.reset(); });
                if (!kept)
                {
                    fail("source-changed", "building a tuple changed the values it was built from");
                }
                break;
            }
            case op_from_elements: {
                M want;
                for (int k = 0; k < K; ++k)
                {
                    want.v[k] = k % 2 ? m[i].v[k] : m[j].v[k];
                }
                create((int)r.below(N), want, [&] { return from_get(i, j, Idx()); });
                break;
            }
            case op_copy_new: create(j, m[i], [&] { return new T(*x[i]); }); break;
            case op_by_value:
                create(j, m[i], [&] {
                    auto pass = [](T t) { return t; };
                    return new T(pass(*x[i])); });
                break;
            case op_self_assign:
            case op_copy_assign: {
                const int d = op.code == op_self_assign ? i : j;
                Outcome o = run_op([&] { T& a = *x[d]; const T& b = *x[i]; a = b; }, [&](const Outcome&) {
                    verify("failed-assignment-effect", d);
                    return GIVE_UP; });
                never(o);
                if (!o.ok())
                {
                    recover(op, d);
                    break;
                }
                m[d] = m[i];
                verify("wrong-value");
                break;
            }
            case op_move_new:
            case op_move_assign: {
                if (i == j)
                {
                    break;
                }
                T* y = nullptr;
                Outcome o = run_op([&] {
                    if (op.code == op_move_assign)
                    {
                        *x[j] = std::move(*x[i]);
                    }
                    else
                    {
                        y = new T(std::move(*x[i]));
                    } },
                                   [&](const Outcome&) {
                                       for (int k = 0; k < N; ++k)
                                       {
                                           if (k != i && k != j && !is(*x[k], m[k]))
                                           {
                                               verify("failed-move-effect", -1);
                                           }
                                       }
                                       return GIVE_UP; });
                never(o);
                if (!o.ok())
                {
                    recover(op, i, j);
                    break;
                }
                if (y)
                {
                    must("destruction", [&] { x[j].reset(y); });
                }
                m[j] = m[i];
                verify("wrong-value", i);
                // the source is assignable and destructible
                if (r.chance(50))
                {
                    must("assignment to a moved-from tuple", [&] { *x[i] = *x[j]; });
                    m[i] = m[j];
                }
                else
                {
                    must("destruction of a moved-from tuple", [&] { x[i].reset(); });
                    renew(i, r);
                }
                verify("wrong-value");
                break;
            }
            case op_swap: {
                Outcome o = run_op([&] {
                    using std::swap;
                    const bool plain = r.chance(50);
                    plain ? std::swap(*x[i], *x[j]) : swap(*x[i], *x[j]); }, [&](const Outcome&) { return GIVE_UP; });
                never(o);
                if (!o.ok())
                {
                    i == j ? recover(op, i) : recover(op, i, j);
                    break;
                }
                std::swap(m[i], m[j]);
                verify("wrong-value");
                break;
            }
            case op_get:
                get_all(i, Idx());
                verify("read-effect");
                break;
            case op_rest:
                if constexpr (K > 0)
                {
                    rest<T>(i, x[i]->rest());
                    verify("read-effect");
                }
                break;
            case op_compare: {
                compare(i, *x[j], eq(m[i], m[j]));
                // differing in one element only
                if (K > 0)
                {
                    M n = m[i];
                    n.v[r.below(K)] = random(r).v[0];
                    auto s = source(n);
                    std::unique_ptr<T> t;
                    must("construction", [&] { t.reset(std::apply([](const Ts&... v) { return new T(v...); }, *s)); });
                    compare(i, *t, eq(m[i], n));
                    must("destruction", [&] { t.reset(); });
                    must("destruction", [&] { Out out; s.reset(); });
                }
                verify("comparison-effect");
                break;
            }
            case op_print: {
                S want = text(m[i]);
                Sink k;
                bool good = true;
                Outcome o = run_op([&] {
                    {
                        Out out;
                        k.got.clear();
                    }
                    std::ostream os(&k);
                    os << *x[i];
                    good = os.good(); },
                                   [&](const Outcome&) {
                                       if (want.compare(0, k.got.size(), k.got) != 0)
                                       {
                                           fail("wrong-text", "an interrupted output wrote %s, which does not begin %s", show(k.got).c_str(), show(want).c_str());
                                       }
                                       verify("failed-output-effect");
                                       return RETRY; });
                never(o);
                if (!good || k.got != want)
                {
                    fail("wrong-text", "printed %s, expected %s", show(k.got).c_str(), show(want).c_str());
                }
                verify("output-effect");
                break;
            }
            case op_in_list: {
                // tuples as elements: found by ==
                int at = -2, first = -1, n = -1, count = 0;
                for (int k = 0; k < N; ++k)
                {
                    if (eq(m[k], m[i]))
                    {
                        first = first < 0 ? k : first;
                        ++count;
                    }
                }
                std::unique_ptr<List<T>> l;
                Outcome o = run_op([&] {
                    l.reset();
                    l.reset(new List<T>());
                    for (auto& t : x)
                    {
                        *l += *t;
                    }
                    at = l->index(*x[i]);
                    n = l->count(*x[i]); },
                                   [&](const Outcome&) { verify("failed-use-effect"); return RETRY; });
                never(o);
                bool same = at == first && n == count;
                for (int k = 0; k < N; ++k)
                {
                    same = same && is((*l)[k], m[k]);
                }
                if (!same)
                {
                    fail("wrong-search", "a list of tuples finds %s at %d, %d times; expected %d and %d", show(text(m[i])).c_str(), at, n, first, count);
                }
                must("destruction", [&] { l.reset(); });
                verify("use-effect");
                break;
            }
            case op_deque_of: {
                std::unique_ptr<Deque<T>> q;
                must("construction", [&] { q.reset(new Deque<T>()); });
                const int n = (int)r.range(1, 12);
                std::vector<M> want;
                for (int k = 0; k < n; ++k)
                {
                    const bool front = r.chance(50);
                    const int s = (int)r.below(N);
                    Outcome o = run_op([&] { front ? q->push_front(*x[s]) : q->push_back(*x[s]); }, [&](const Outcome&) {
                        if (q->size() != (int)want.size())
                        {
                            fail("failed-push-effect", "a failed push changed the size of a deque of tuples");
                        }
                        return RETRY; });
                    never(o);
                    want.insert(front ? want.begin() : want.end(), m[s]);
                }
                for (int k = 0; k < n; ++k)
                {
                    if (!is((*q)[k], want[k]))
                    {
                        fail("wrong-value", "a deque of tuples holds another tuple at %d", k);
                    }
                }
                must("destruction", [&] { q.reset(); });
                verify("use-effect");
                break;
            }
        }
    }
};

typedef Tuple<> T0;
typedef Tuple<Elem> T1;
typedef Tuple<Elem, Elem> T2;
typedef Tuple<CElem, Int, Str> T3;
typedef Tuple<List<Elem>, Tuple<Str, Elem>, int> T4;
typedef Tuple<int, bool, double, int, Elem, int> T5;
typedef Tuple<Set<Int>, Dict<int, Str>, Deque<Elem>, Fraction, Complex, Tuple<>> T6;
typedef Tuple<Tuple<Elem, Elem>, Tuple<Elem>, Elem> T7;
typedef Tuple<int, bool, double, int, Elem, Str> T8;
static const int TYPES = 9;

struct Seg
{
    std::unique_ptr<Any> p[TYPES];
    Any* get(int k)
    {
        if (!p[k])
        {
            switch (k)
            {
                case 0: p[k].reset(new Pool<T0>()); break;
                case 1: p[k].reset(new Pool<T1>()); break;
                case 2: p[k].reset(new Pool<T2>()); break;
                case 3: p[k].reset(new Pool<T3>()); break;
                case 4: p[k].reset(new Pool<T4>()); break;
                case 5: p[k].reset(new Pool<T5>()); break;
                case 6: p[k].reset(new Pool<T6>()); break;
                case 7: p[k].reset(new Pool<T7>()); break;
                default: p[k].reset(new Pool<T8>()); break;
            }
        }
        return p[k].get();
    }
};
static std::unique_ptr<Seg> seg;

template <class A, class B>
static void cross(int a, int b, int i, int j)
{
    auto* x = (Pool<A>*)seg->get(a);
    auto* y = (Pool<B>*)seg->get(b);
    x->compare(i, *y->x[j], false);
    y->verify("comparison-effect");
    x->verify("comparison-effect");
}
static void do_cross(const Op& op)
{
    const int i = (int)((u64)op.a[1] % 3), j = (int)((u64)op.a[2] % 3);
    switch ((u64)op.a[0] % 12)
    {
        case 0: cross<T0, T1>(0, 1, i, j); break;
        case 1: cross<T1, T2>(1, 2, i, j); break;
        case 2: cross<T2, T1>(2, 1, i, j); break;
        case 3: cross<T5, T8>(5, 8, i, j); break;
        case 4: cross<T3, T4>(3, 4, i, j); break;
        case 5: cross<T6, T0>(6, 0, i, j); break;
        case 6: cross<T7, T2>(7, 2, i, j); break;
        case 7: cross<T5, T1>(5, 1, i, j); break;
        case 8: {
            // a tuple against its own rest
            auto* x = (Pool<T2>*)seg->get(2);
            x->compare(i, x->x[j]->rest(), false);
            break;
        }
        case 9: {
            auto* x = (Pool<T1>*)seg->get(1);
            auto* y = (Pool<T2>*)seg->get(2);
            x->compare(i, y->x[j]->rest(), El<Elem>::eq(x->m[i].v[0], y->m[j].v[1]));
            break;
        }
        case 10: {
            auto* x = (Pool<T0>*)seg->get(0);
            auto* y = (Pool<T1>*)seg->get(1);
            x->compare(i, y->x[j]->rest(), true);
            break;
        }
        default: cross<T8, T5>(8, 5, i, j); break;
    }
}

static void do_reset(const Op& op)
{
    seg.reset();
    domain = std::max<i64>(1, op.a[0]);
    seg.reset(new Seg());
}
static void do_exec(const Op& op)
{
    if (!seg)
    {
        return;
    }
    if (op.code == op_cross)
    {
        do_cross(op);
        return;
    }
    seg->get((int)((u64)op.a[0] % TYPES))->exec(op);
}
static void do_finish()
{
    seg.reset();
}

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    const i64 domains[] = {2, 3, 8, 60};
    reset.a[0] = domains[r.below(4)];
    out.push_back(reset);
    GenFaults gf;
    static const int all[] = {F_ALLOC, F_ALLOC_STICKY, F_ALLOC_SWEEP, F_COPY, F_COMPARE};
    if (r.chance(85))
    {
        gf.rate = (int)r.range(15, 80);
        for (int k : all)
        {
            if (r.chance(60))
            {
                gf.kinds.push_back(k);
            }
        }
        gf.maxbits = (int)r.range(1, 5);
    }
    std::vector<int> ops, types;
    for (int k = 1; k < N_OPS; ++k)
    {
        if (r.chance(60))
        {
            ops.push_back(k);
        }
    }
    ops.push_back(op_build);
    for (int k = 0; k < TYPES; ++k)
    {
        if (r.chance(40))
        {
            types.push_back(k);
        }
    }
    types.push_back((int)r.range(1, TYPES - 1));
    int len = (int)r.range(5, thorough ? 50 : 30);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = ops[r.below(ops.size())];
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 16);
        }
        op.a[0] = op.code == op_cross ? (i64)r.below(12) : types[r.below(types.size())];
        gf.apply(r, op);
        out.push_back(op);
    }
}

namespace sim
{
World world = {"tuple", names, N_OPS, "digest of (operation, outcome, injected fault, resulting values) over a whole history",
               "pyincpp::Tuple with Int, Str, Fraction, Complex, List, Deque, Set, Dict and Tuple elements", "allocator (operator new), element types, output device",
               gen, do_reset, do_exec, do_finish, 3000000, 300000, 40000000};
}
