// World: building and extending containers from single-pass, forward, failing and stream sources (C22).
#include "dev.hpp"
#include "elem.hpp"
#include <algorithm>
#include <deque>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>

using namespace sim;
using namespace pyincpp;
typedef std::string S;

#define OPS(X) X(RESET) X(list_build) X(list_extend) X(list_edit) X(deque_build) X(deque_back) X(deque_front) X(deque_edit) X(set_build) X(set_extend) X(set_edit) X(dict_build) X(dict_extend) X(dict_edit) X(cross) X(stream) X(init)
enum Code
{
#define X(n) op_##n,
    OPS(X)
#undef X
        N_OPS
};
static const char* const names[] = {
#define X(n) #n,
    OPS(X)
#undef X
};
enum { BY_VALUE, BUFFERED, VECTOR, LIST, POINTER, REVERSED, MUTABLE, MUT_LIST, MUT_POINTER, N_SOURCES };
static const char* const source_names[] = {"single-pass", "single-pass buffered", "vector", "list", "pointer", "reverse", "mutable vector", "mutable list", "mutable pointer"};

extern i64 tags;

// ---------------------------------------------------------------- the simulated source
// what a position of the source yields
template <class T>
struct Item
{
    static T make(const MV& m) { return TR<T>::make(m.v, m.tag); }
};
template <class K, class V>
struct Item<std::pair<K, V>>
{
    static std::pair<K, V> make(const MV& m) { return {TR<K>::make(m.v, m.tag), TR<V>::make(m.v + 1, m.tag)}; }
};

template <class T>
struct Source
{
    std::vector<MV> data;
    size_t pos = 0;
    std::vector<char> delivered;
    std::optional<T> buffer; // of the current position
    size_t buffered_at = ~(size_t)0;
    explicit Source(const std::vector<MV>& d) : data(d), delivered(d.size()) {}
};

// single-pass: advancing one copy invalidates every other
template <class T, bool BUF>
struct It
{
    typedef std::input_iterator_tag iterator_category;
    typedef T value_type;
    typedef std::ptrdiff_t difference_type;
    typedef std::conditional_t<BUF, const T&, T> reference;
    typedef const T* pointer;
    Source<T>* s = nullptr;
    size_t at = 0;

    void check(const char* what) const
    {
        if (!s || at >= s->data.size())
        {
            fail("source-misuse", "%s a source past its end", what);
        }
        if (at != s->pos)
        {
            fail("source-misuse", "%s position %zu of a single-pass source that is at position %zu", what, at, s->pos);
        }
    }
    reference operator*() const
    {
        check("reading");
        tick_source(0);
        s->delivered[at] = 1;
        if constexpr (BUF)
        {
            if (s->buffered_at != at)
            {
                s->buffer.reset();
                s->buffer.emplace(Item<T>::make(s->data[at]));
                s->buffered_at = at;
            }
            return *s->buffer;
        }
        else
        {
            return Item<T>::make(s->data[at]);
        }
    }
    It& operator++()
    {
        check("advancing");
        tick_source(1);
        s->buffer.reset(); // references to the previous position die here
        s->buffered_at = ~(size_t)0;
        at = ++s->pos;
        return *this;
    }
    struct Post
    {
        T v;
        const T& operator*() const { return v; }
    };
    Post operator++(int)
    {
        Post p{**this};
        ++*this;
        return p;
    }
    bool operator==(const It& t) const
    {
        bool e1 = !s || at >= s->data.size(), e2 = !t.s || t.at >= t.s->data.size();
        return e1 == e2 && (e1 || at == t.at);
    }
};

static std::vector<MV> source_data(Rng& r, int spread)
{
    size_t n;
    switch (r.below(10))
    {
        case 0: n = 0; break;
        case 1: n = 1; break;
        case 2: n = r.below(80) ? r.below(300) : r.below(6) ? (size_t)r.range(300, 2200) : (size_t)r.range(2200, 9000); break;
        case 3:
        case 4: n = r.below(70); break;
        default: n = r.below(12); break;
    }
    std::vector<MV> d(n);
    int shape = (int)r.below(5);
    for (size_t i = 0; i < n; ++i)
    {
        i64 v = shape == 0 ? (i64)i : shape == 1 ? (i64)(n - i) : shape == 2 ? (i64)(i / 2) : (i64)r.below(spread);
        d[i] = MV{v, ++tags};
    }
    return d;
}

template <class T>
static bool unchanged(const T& t, const MV& m) { return same_elem<T>(t, m); }
template <class K, class V>
static bool unchanged(const std::pair<K, V>& t, const MV& m) { return same_elem<K>(t.first, m) && same_elem<V>(t.second, MV{m.v + 1, m.tag}); }

// Runs f(first, last) over the given kind of source; delivered: which positions were read.
template <class T, class F>
static void over(int kind, const std::vector<MV>& data, std::vector<char>& delivered, bool& complete, F f)
{
    // the source is the harness's, its construction is not code under test
    switch (kind)
    {
        case BY_VALUE:
        case BUFFERED: {
            std::unique_ptr<Source<T>> s;
            {
                Out out;
                s.reset(new Source<T>(data));
            }
            struct G
            {
                std::unique_ptr<Source<T>>& s;
                std::vector<char>& d;
                bool& c;
                ~G()
                {
                    Out out;
                    d = s->delivered;
                    c = s->pos == s->data.size();
                    s.reset();
                }
            } g{s, delivered, complete};
            if (kind == BY_VALUE)
            {
                f(It<T, false>{s.get(), 0}, It<T, false>{s.get(), data.size()});
            }
            else
            {
                f(It<T, true>{s.get(), 0}, It<T, true>{});
            }
            break;
        }
        default: {
            std::vector<T> v;
            std::list<T> l;
            {
                Out out;
                v.reserve(data.size());
                for (auto& m : data)
                {
                    v.push_back(Item<T>::make(m));
                }
                if (kind == LIST || kind == MUT_LIST)
                {
                    l.assign(v.begin(), v.end());
                }
                if (kind == REVERSED)
                {
                    v.clear();
                    for (auto m = data.rbegin(); m != data.rend(); ++m)
                    {
                        v.push_back(Item<T>::make(*m));
                    }
                }
                delivered.assign(data.size(), 1);
                complete = true;
            }
            struct G
            {
                std::vector<T>& v;
                std::list<T>& l;
                ~G()
                {
                    Out out;
                    v = std::vector<T>();
                    l = std::list<T>();
                }
            } g{v, l};
            auto only_read = [&] {
                // whatever happens, the source itself is only read
                Out out;
                auto at = l.begin();
                for (size_t i = 0; i < data.size(); ++i)
                {
                    const T& now = kind == LIST || kind == MUT_LIST ? *at++ : kind == REVERSED ? v[data.size() - 1 - i] : v[i];
                    if (!unchanged(now, data[i]))
                    {
                        fail("source-changed", "element %zu of the source range was changed", i);
                    }
                }
            };
            try
            {
                if (kind == VECTOR)
                {
                    f(v.cbegin(), v.cend());
                }
                else if (kind == LIST)
                {
                    f(l.cbegin(), l.cend());
                }
                else if (kind == POINTER)
                {
                    const T* p = v.data();
                    f(p, p + v.size());
                }
                else if (kind == MUTABLE)
                {
                    f(v.begin(), v.end());
                }
                else if (kind == MUT_LIST)
                {
                    f(l.begin(), l.end());
                }
                else if (kind == MUT_POINTER)
                {
                    T* p = v.data();
                    f(p, p + v.size());
                }
                else
                {
                    f(v.crbegin(), v.crend());
                }
            }
            catch (...)
            {
                only_read();
                throw;
            }
            only_read();
            break;
        }
    }
}
// ---------------------------------------------------------------- the containers
struct SegBase
{
    virtual ~SegBase() {}
    virtual void exec(const Op& op) = 0;
};

template <class T>
struct Seg : SegBase
{
    typedef std::pair<T, T> P;
    static constexpr bool strong = TR<T>::strong;
    List<T> l;
    Model ml;
    Deque<T> d;
    Model md;
    Set<T> s;
    std::map<i64, i64> ms;
    Dict<T, T> m;
    std::map<i64, i64> mm; // key -> tag; the value is key + 1 with the same tag

    static S show_src(const std::vector<MV>& v) { return show_model(v, TR<T>::tagged); }

    // ---- reading
    template <class C>
    static Model read_seq(const C& c)
    {
        Model r;
        for (auto it = c.begin(); it != c.end(); ++it)
        {
            Out out;
            r.push_back(MV{TR<T>::val(*it), TR<T>::tag(*it)});
        }
        if (c.size() != (int)r.size() || c.is_empty() != r.empty())
        {
            fail("inconsistent", "size() is %d, %zu elements are iterated", c.size(), r.size());
        }
        return r;
    }
    static std::map<i64, i64> read_set(const Set<T>& c)
    {
        std::map<i64, i64> r;
        i64 last = INT64_MIN;
        int n = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++n)
        {
            bool found = c.contains(*it);
            Out out;
            i64 v = TR<T>::val(*it);
            if (v <= last || !found)
            {
                fail("inconsistent", "the Set iterates %lld after %lld", (long long)v, (long long)last);
            }
            last = v;
            r[v] = TR<T>::tag(*it);
        }
        if (c.size() != n)
        {
            fail("inconsistent", "size() is %d, %d elements are iterated", c.size(), n);
        }
        return r;
    }
    static std::map<i64, i64> read_dict(const Dict<T, T>& c)
    {
        std::map<i64, i64> r;
        i64 last = INT64_MIN;
        int n = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++n)
        {
            Out out;
            i64 k = TR<T>::val(it->first), v = TR<T>::val(it->second), tag = TR<T>::tag(it->second);
            if (k <= last)
            {
                fail("inconsistent", "the Dict iterates key %lld after %lld", (long long)k, (long long)last);
            }
            if (v != k + 1 || tag != TR<T>::tag(it->first))
            {
                fail("wrong-content", "the Dict holds the value %lld for key %lld of another source position", (long long)v, (long long)k);
            }
            last = k;
            r[k] = tag;
        }
        if (c.size() != n)
        {
            fail("inconsistent", "size() is %d, %d items are iterated", c.size(), n);
        }
        return r;
    }
    static bool eq(const MV& a, const MV& b) { return a.v == b.v && (!TR<T>::tagged || a.tag == b.tag); }
    static bool eq(const Model& a, const Model& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](const MV& x, const MV& y) { return eq(x, y); }); }
    static bool eq(const std::map<i64, i64>& a, const std::map<i64, i64>& b)
    {
        return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](auto& x, auto& y) { return x.first == y.first && (!TR<T>::tagged || x.second == y.second); });
    }
    static S show_map(const std::map<i64, i64>& a)
    {
        Model v;
        for (auto& e : a)
        {
            v.push_back(MV{e.first, e.second});
        }
        return show_model(v, TR<T>::tagged);
    }
    void verify(const char* cls)
    {
        must("inspection", [&] {
            Model gl = read_seq(l), gd = read_seq(d);
            auto gs = read_set(s);
            auto gm = read_dict(m);
            Out out;
            if (!eq(gl, ml))
            {
                fail(cls, "%s: the List is %s, expected %s", names[cur_op->code], show_src(gl).c_str(), show_src(ml).c_str());
            }
            if (!eq(gd, md))
            {
                fail(cls, "%s: the Deque is %s, expected %s", names[cur_op->code], show_src(gd).c_str(), show_src(md).c_str());
            }
            if (!eq(gs, ms))
            {
                fail(cls, "%s: the Set is %s, expected %s", names[cur_op->code], show_map(gs).c_str(), show_map(ms).c_str());
            }
            if (!eq(gm, mm))
            {
                fail(cls, "%s: the Dict is %s, expected %s", names[cur_op->code], show_map(gm).c_str(), show_map(mm).c_str());
            } });
    }
    // ---- what a failed bulk operation may leave
    // extra: elements beyond the old ones, each a delivered source element used at most once
    void check_extra(const char* what, const Model& extra, const std::vector<MV>& src, const std::vector<char>& delivered)
    {
        std::vector<char> used(src.size());
        for (auto& e : extra)
        {
            size_t k = 0;
            while (k < src.size() && (used[k] || !delivered[k] || !eq(src[k], e)))
            {
                ++k;
            }
            if (k == src.size())
            {
                fail("failed-op-effect", "a failed %s added %lld#%lld, which the source did not deliver (or less often); source %s", what, (long long)e.v, (long long)e.tag, show_src(src).c_str());
            }
            used[k] = 1;
        }
    }
    void adopt_seq(const char* what, const Model& now, Model& model, bool front, const std::vector<MV>& src, const std::vector<char>& delivered)
    {
        size_t n = model.size();
        bool ok = now.size() >= n;
        size_t extra = ok ? now.size() - n : 0;
        for (size_t i = 0; ok && i < n; ++i)
        {
            ok = eq(now[i + (front ? extra : 0)], model[i]);
        }
        if (!ok)
        {
            fail("failed-op-effect", "after a failed %s from %s the content is %s, it was %s", what, show_src(src).c_str(), show_src(now).c_str(), show_src(model).c_str());
        }
        check_extra(what, front ? Model(now.begin(), now.begin() + extra) : Model(now.begin() + n, now.end()), src, delivered);
        model = now;
    }
    void adopt_map(const char* what, const std::map<i64, i64>& now, std::map<i64, i64>& model, const std::vector<MV>& src, const std::vector<char>& delivered)
    {
        for (auto& e : model)
        {
            auto k = now.find(e.first);
            if (k == now.end() || (TR<T>::tagged && k->second != e.second))
            {
                fail("failed-op-effect", "a failed %s lost or replaced %lld#%lld", what, (long long)e.first, (long long)e.second);
            }
        }
        for (auto& e : now)
        {
            if (model.count(e.first))
            {
                continue;
            }
            size_t k = 0;
            while (k < src.size() && src[k].v != e.first)
            {
                ++k;
            }
            if (k == src.size() || !delivered[k] || (TR<T>::tagged && src[k].tag != e.second))
            {
                fail("failed-op-effect", "a failed %s added %lld#%lld, which is not the first such element the source delivered", what, (long long)e.first, (long long)e.second);
            }
        }
        model = now;
    }
    static void first_wins(std::map<i64, i64>& model, const std::vector<MV>& src)
    {
        for (auto& e : src)
        {
            model.emplace(e.v, e.tag);
        }
    }
    // ---- one bulk operation. run: does it once; after_fail: adopts the state
    template <class U, class F, class A>
    void bulk(const char* what, int kind, const std::vector<MV>& src, F f, A after_fail)
    {
        std::vector<char> delivered;
        bool complete = false;
        Outcome o = run_op([&] { over<U>(kind, src, delivered, complete, f); }, [&](const Outcome&) {
            probe("failed_part_way", !delivered.empty() && delivered[0]);
            after_fail(delivered);
            verify("failed-op-effect");
            return cur_op->a[4] % 4 ? RETRY : GIVE_UP; });
        if (o.k == RTE)
        {
            fail("unexpected-exception", "%s from a %s source: %s", what, source_names[kind], o.what.c_str());
        }
        done = o.k == OK;
        if (done && (!complete || std::count(delivered.begin(), delivered.end(), 1) != (long)src.size()))
        {
            fail("source-not-exhausted", "%s took only part of a %s source of %zu elements", what, source_names[kind], src.size());
        }
    }
    bool done = false;

    void exec(const Op& op) override
    {
        Rng r(mix2(op.a[0], op.a[1]));
        int kind = (int)((u64)op.a[2] % (N_SOURCES + 2));
        kind = kind >= N_SOURCES ? kind - N_SOURCES : kind; // single-pass twice as often
        std::vector<MV> src = source_data(r, (int)r.range(3, 200));
        note(mix2(op.code, src.size() * 16 + kind));
        switch (op.code)
        {
            case op_list_build: {
                std::unique_ptr<List<T>> y;
                bulk<T>("building a List", kind, src, [&](auto a, auto b) { y.reset(); y.reset(new List<T>(a, b)); }, [&](auto&) {});
                if (done)
                {
                    must("inspection", [&] { expect_seq("List", read_seq(*y), src, kind); });
                    if (op.a[3] % 2)
                    {
                        must("move", [&] { l = std::move(*y); });
                        ml = src;
                    }
                    must("destruction", [&] { y.reset(); });
                }
                break;
            }
            case op_list_extend:
                bulk<T>("extending a List", kind, src, [&](auto a, auto b) { l.extend(a, b); }, [&](auto& del) {
                    Model now;
                    must("inspection", [&] { now = read_seq(l); });
                    lenient(now, ml) ? void(ml = now) : adopt_seq("List.extend", now, ml, false, src, del); });
                if (done)
                {
                    ml.insert(ml.end(), src.begin(), src.end());
                }
                break;
            case op_deque_build: {
                std::unique_ptr<Deque<T>> y;
                bulk<T>("building a Deque", kind, src, [&](auto a, auto b) { y.reset(); y.reset(new Deque<T>(a, b)); }, [&](auto&) {});
                if (done)
                {
                    must("inspection", [&] { expect_seq("Deque", read_seq(*y), src, kind); });
                    if (op.a[3] % 2)
                    {
                        must("move", [&] { d = std::move(*y); });
                        md = src;
                    }
                    must("destruction", [&] { y.reset(); });
                }
                break;
            }
            case op_deque_back:
            case op_deque_front: {
                bool front = op.code == op_deque_front;
                bulk<T>(front ? "extend_front" : "extend_back", kind, src, [&](auto a, auto b) { front ? d.extend_front(a, b) : d.extend_back(a, b); }, [&](auto& del) {
                    Model now;
                    must("inspection", [&] { now = read_seq(d); });
                    lenient(now, md) ? void(md = now) : adopt_seq(front ? "extend_front" : "extend_back", now, md, front, src, del); });
                if (done)
                {
                    md.insert(front ? md.begin() : md.end(), src.begin(), src.end());
                }
                break;
            }
            case op_set_build: {
                std::unique_ptr<Set<T>> y;
                bulk<T>("building a Set", kind, src, [&](auto a, auto b) { y.reset(); y.reset(new Set<T>(a, b)); }, [&](auto&) {});
                if (done)
                {
                    std::map<i64, i64> want, got;
                    first_wins(want, src);
                    must("inspection", [&] { got = read_set(*y); });
                    if (!eq(got, want))
                    {
                        fail("wrong-content", "a Set built from the %s source %s is %s", source_names[kind], show_src(src).c_str(), show_map(got).c_str());
                    }
                    if (op.a[3] % 2)
                    {
                        must("move", [&] { s = std::move(*y); });
                        ms = want;
                    }
                    must("destruction", [&] { y.reset(); });
                }
                break;
            }
            case op_set_extend:
                bulk<T>("extending a Set", kind, src, [&](auto a, auto b) { s.extend(a, b); }, [&](auto& del) {
                    std::map<i64, i64> now;
                    must("inspection", [&] { now = read_set(s); });
                    adopt_map("Set.extend", now, ms, src, del); });
                if (done)
                {
                    first_wins(ms, src);
                }
                break;
            case op_dict_build: {
                std::unique_ptr<Dict<T, T>> y;
                bulk<P>("building a Dict", kind, src, [&](auto a, auto b) { y.reset(); y.reset(new Dict<T, T>(a, b)); }, [&](auto&) {});
                if (done)
                {
                    std::map<i64, i64> want, got;
                    first_wins(want, src);
                    must("inspection", [&] { got = read_dict(*y); });
                    if (!eq(got, want))
                    {
                        fail("wrong-content", "a Dict built from the %s source %s is %s", source_names[kind], show_src(src).c_str(), show_map(got).c_str());
                    }
                    if (op.a[3] % 2)
                    {
                        must("move", [&] { m = std::move(*y); });
                        mm = want;
                    }
                    must("destruction", [&] { y.reset(); });
                }
                break;
            }
            case op_dict_extend:
                bulk<P>("extending a Dict", kind, src, [&](auto a, auto b) { m.extend(a, b); }, [&](auto& del) {
                    std::map<i64, i64> now;
                    must("inspection", [&] { now = read_dict(m); });
                    adopt_map("Dict.extend", now, mm, src, del); });
                if (done)
                {
                    first_wins(mm, src);
                }
                break;
            case op_list_edit:
                for (int n = (int)r.range(1, 6); n > 0; --n)
                {
                    MV v{(i64)r.below(50), ++tags};
                    switch (r.below(6))
                    {
                        case 0: {
                            size_t at = r.below(ml.size() + 1);
                            must("insert", [&] { l.insert((int)at, TR<T>::make(v.v, v.tag)); });
                            ml.insert(ml.begin() + at, v);
                            break;
                        }
                        case 1:
                            if (!ml.empty())
                            {
                                size_t at = r.below(ml.size());
                                must("remove", [&] { l.remove((int)at); });
                                ml.erase(ml.begin() + at);
                            }
                            break;
                        case 2:
                            if (r.chance(20))
                            {
                                must("clear", [&] { l.clear(); });
                                ml.clear();
                            }
                            break;
                        default:
                            must("append", [&] { l += TR<T>::make(v.v, v.tag); });
                            ml.push_back(v);
                            break;
                    }
                }
                break;
            case op_deque_edit:
                for (int n = (int)r.range(1, 12); n > 0; --n)
                {
                    MV v{(i64)r.below(50), ++tags};
                    switch (r.below(7))
                    {
                        case 0:
                        case 1:
                            must("push_front", [&] { d.push_front(TR<T>::make(v.v, v.tag)); });
                            md.insert(md.begin(), v);
                            break;
                        case 2:
                            if (!md.empty())
                            {
                                must("pop_front", [&] { d.pop_front(); });
                                md.erase(md.begin());
                            }
                            break;
                        case 3:
                            if (!md.empty())
                            {
                                must("pop_back", [&] { d.pop_back(); });
                                md.pop_back();
                            }
                            break;
                        case 4:
                            if (r.chance(15))
                            {
                                must("clear", [&] { d.clear(); });
                                md.clear();
                            }
                            break;
                        default:
                            must("push_back", [&] { d.push_back(TR<T>::make(v.v, v.tag)); });
                            md.push_back(v);
                            break;
                    }
                }
                break;
            case op_set_edit:
                for (int n = (int)r.range(1, 8); n > 0; --n)
                {
                    MV v{(i64)r.below(60), ++tags};
                    if (r.chance(50))
                    {
                        must("add", [&] { s.add(TR<T>::make(v.v, v.tag)); });
                        ms.emplace(v.v, v.tag);
                    }
                    else if (r.chance(8))
                    {
                        must("clear", [&] { s.clear(); });
                        ms.clear();
                    }
                    else
                    {
                        must("remove", [&] { s.remove(TR<T>::make(v.v, v.tag)); });
                        ms.erase(v.v);
                    }
                }
                break;
            case op_dict_edit:
                for (int n = (int)r.range(1, 8); n > 0; --n)
                {
                    MV v{(i64)r.below(60), ++tags};
                    if (r.chance(50))
                    {
                        must("add", [&] { m.add(TR<T>::make(v.v, v.tag), TR<T>::make(v.v + 1, v.tag)); });
                        mm.emplace(v.v, v.tag);
                    }
                    else if (r.chance(8))
                    {
                        must("clear", [&] { m.clear(); });
                        mm.clear();
                    }
                    else
                    {
                        must("remove", [&] { m.remove(TR<T>::make(v.v, v.tag)); });
                        mm.erase(v.v);
                    }
                }
                break;
            case op_cross: cross(r); break;
            case op_stream: stream(r); break;
            case op_init: init(r); break;
        }
        verify(op.code == op_cross ? "wrong-content" : "wrong-content");
        if (ml.size() > 500)
        {
            must("clear", [&] { l.clear(); });
            ml.clear();
        }
        if (md.size() > 500)
        {
            must("clear", [&] { d.clear(); });
            md.clear();
        }
        note(ml.size() * 3 + md.size() * 5 + ms.size() * 7 + mm.size() * 11);
    }
    // copy-only elements shift by copying: a failing shift may leave any valid content
    bool lenient(const Model& now, const Model& old)
    {
        if (strong)
        {
            return false;
        }
        (void)now;
        (void)old;
        return true;
    }
    void expect_seq(const char* what, const Model& got, const Model& want, int kind)
    {
        Out out;
        if (!eq(got, want))
        {
            fail("wrong-content", "a %s built from the %s source %s is %s", what, source_names[kind], show_src(want).c_str(), show_src(got).c_str());
        }
    }
    // between the containers
    void cross(Rng& r)
    {
        int which = (int)r.below(7);
        Outcome o = run_op([&] {
            switch (which)
            {
                case 0: { List<T> y(d.begin(), d.end()); Out out; expect_seq("List", read_seq(y), md, VECTOR); break; }
                case 1: { Deque<T> y(l.rbegin(), l.rend()); Out out; expect_seq("Deque", read_seq(y), Model(ml.rbegin(), ml.rend()), REVERSED); break; }
                case 2: { List<T> y(s.begin(), s.end()); Out out; Model w; for (auto& e : ms) w.push_back(MV{e.first, e.second}); expect_seq("List", read_seq(y), w, LIST); break; }
                case 3: { Set<T> y(l.begin(), l.end()); Out out; std::map<i64, i64> w; first_wins(w, ml); auto got = read_set(y); if (!eq(got, w)) fail("wrong-content", "a Set built from the List %s is %s", show_src(ml).c_str(), show_map(got).c_str()); break; }
                case 4: { Dict<T, T> y(m.begin(), m.end()); Out out; auto got = read_dict(y); if (!eq(got, mm)) fail("wrong-content", "a Dict built from the Dict %s is %s", show_map(mm).c_str(), show_map(got).c_str()); break; }
                case 5: { Deque<T> y(s.begin(), s.end()); y.extend_front(l.begin(), l.end()); y.extend_back(d.begin(), d.end()); Out out; Model w(ml); for (auto& e : ms) w.push_back(MV{e.first, e.second}); w.insert(w.end(), md.begin(), md.end()); expect_seq("Deque", read_seq(y), w, LIST); break; }
                default: { List<T> y(l); y.extend(y.begin(), y.end()); y.extend(s.begin(), s.end()); Out out; Model w(ml); w.insert(w.end(), ml.begin(), ml.end()); for (auto& e : ms) w.push_back(MV{e.first, e.second}); expect_seq("List", read_seq(y), w, LIST); break; }
            } }, [&](const Outcome&) {
            verify("failed-op-effect");
            return RETRY; });
        if (o.k == RTE)
        {
            fail("unexpected-exception", "copying one container into another: %s", o.what.c_str());
        }
    }
    void init(Rng& r)
    {
        MV a = MV{(i64)r.below(4), ++tags}, b = MV{(i64)r.below(4), ++tags}, c = MV{(i64)r.below(4), ++tags};
        Model w{a, b, c};
        Outcome o = run_op([&] {
            T x(TR<T>::make(a.v, a.tag)), y(TR<T>::make(b.v, b.tag)), z(TR<T>::make(c.v, c.tag));
            List<T> l1{x, y, z};
            Deque<T> d1{x, y, z};
            Set<T> s1{x, y, z};
            std::vector<T> v{x, y, z};
            List<T> l2(v);
            std::deque<T> sd(v.begin(), v.end());
            Deque<T> d2(sd);
            std::set<T> ss(v.begin(), v.end());
            Set<T> s2(ss);
            T x1(TR<T>::make(a.v + 1, a.tag)), y1(TR<T>::make(b.v + 1, b.tag)), z1(TR<T>::make(c.v + 1, c.tag));
            Dict<T, T> m1{{x, x1}, {y, y1}, {z, z1}};
            std::map<T, T> sm{{x, x1}, {y, y1}, {z, z1}};
            Dict<T, T> m2(sm);
            Out out;
            expect_seq("List", read_seq(l1), w, POINTER);
            expect_seq("List", read_seq(l2), w, VECTOR);
            expect_seq("Deque", read_seq(d1), w, POINTER);
            expect_seq("Deque", read_seq(d2), w, VECTOR);
            std::map<i64, i64> ws;
            first_wins(ws, w);
            auto got = read_set(s1);
            if (!eq(got, ws) || !eq(read_set(s2), ws) || !eq(read_dict(m1), ws) || !eq(read_dict(m2), ws))
            {
                fail("wrong-content", "a Set or Dict built from %s is wrong; the Set is %s", show_src(w).c_str(), show_map(got).c_str());
            } }, [&](const Outcome&) { return RETRY; });
        if (o.k == RTE)
        {
            fail("unexpected-exception", "building from a list of elements: %s", o.what.c_str());
        }
    }
    // numbers and words from a device through istream_iterator
    void stream(Rng& r)
    {
        int n = (int)(r.chance(20) ? 0 : r.below(25)), which = (int)r.below(6);
        std::vector<i64> vals;
        S text;
        std::vector<size_t> ends;
        for (int i = 0; i < n; ++i)
        {
            vals.push_back(r.range(-99999, 99999) / (r.chance(50) ? 1000 : 1));
            text += S(r.below(3), ' ') + std::to_string(vals.back());
            ends.push_back(text.size());
            text += r.chance(50) ? "\n" : " ";
        }
        if (r.chance(30))
        {
            text += "end";
        }
        size_t err = r.chance(40) ? r.below(text.size() + 1) : ~(size_t)0;
        bool exc = r.chance(40);
        int chunk = (int)r.below(5);
        u64 cs = r.next();
        SimIn buf(text, chunk, cs, err);
        std::istream is(&buf);
        if (exc)
        {
            is.exceptions(std::ios::badbit);
        }
        std::vector<i64> got;
        bool threw = false;
        Deque<Int> kept;
        disarm();
        Outcome o = sut_armed([&] {
            auto put = [&](const auto& c) { for (const auto& e : c) { std::ostringstream os; os << e; Out out; got.push_back(atoll(os.str().c_str())); } };
            switch (which)
            {
                case 0: put(List<int>(std::istream_iterator<int>(is), std::istream_iterator<int>())); break;
                case 1: put(List<Int>(std::istream_iterator<Int>(is), std::istream_iterator<Int>())); break;
                case 2: kept.push_back(7); kept.extend_back(std::istream_iterator<Int>(is), std::istream_iterator<Int>()); put(kept); break;
                case 3: { Deque<Fraction> y; y.push_back(7); y.extend_front(std::istream_iterator<Fraction>(is), std::istream_iterator<Fraction>()); y.pop_back(); put(y); break; }
                case 4: { List<int> y{1, 2}; y.extend(std::istream_iterator<int>(is), std::istream_iterator<int>()); y.remove(0); y.remove(0); put(y); break; }
                default: put(Set<Int>(std::istream_iterator<Int>(is), std::istream_iterator<Int>())); break;
            } });
        disarm();
        note(o.k);
        st.faults_in_segment += buf.errored;
        threw = o.k != OK;
        // extraction of an Int or Fraction reports a bad token or the end of the stream, too, by std::runtime_error
        bool int_end = o.k == RTE && (which == 1 || which == 2 || which == 3 || which == 5);
        if (threw && !int_end && !(exc && buf.errored))
        {
            fail("unexpected-exception", "loading from a stream: %s %s", kind_names[o.k], o.what.c_str());
        }
        if (exc && buf.errored && !threw)
        {
            // a token that ends exactly where the device fails may have been complete
            probe("device_failure_swallowed_by_iterator");
        }
        if (which == 2)
        {
            // what was there and what was delivered before the failure
            int i = 0;
            must("inspection", [&] {
                for (auto it = kept.begin(); it != kept.end(); ++it, ++i)
                {
                    if (!(*it == Int(i == 0 ? 7 : i <= n ? (int)vals[i - 1] : 0)))
                    {
                        fail("failed-op-effect", "after loading %s behind a 7, element %d of the Deque is wrong", show(text).c_str(), i);
                    }
                } });
            if (i < 1 || i > n + 1 || i != kept.size())
            {
                fail("failed-op-effect", "after loading %s behind a 7, the Deque has %d elements", show(text).c_str(), kept.size());
            }
            must("use", [&] { kept.push_back(8); kept.clear(); });
        }
        if (!threw && which != 2)
        {
            // every token that ends before the point of failure is delivered, later ones are not
            std::vector<i64> sure, maybe;
            for (int i = 0; i < n; ++i)
            {
                if (ends[i] < err)
                {
                    sure.push_back(vals[i]);
                }
                if (ends[i] <= err)
                {
                    maybe.push_back(vals[i]);
                }
            }
            auto norm = [&](std::vector<i64> v) {
                if (which == 5)
                {
                    std::sort(v.begin(), v.end());
                    v.erase(std::unique(v.begin(), v.end()), v.end());
                }
                return v;
            };
            if (got != norm(sure) && got != norm(maybe))
            {
                fail("wrong-content", "loading %s (device fails at %zd) gave %zu elements, expected %zu or %zu", show(text).c_str(), (ssize_t)err, got.size(), norm(sure).size(), norm(maybe).size());
            }
            probe("loaded_from_stream");
        }
    }
};

typedef SegBase* (*Maker)();
template <class T>
static SegBase* mk() { return new Seg<T>; }
extern const Maker mk_elem, mk_celem, mk_int, mk_str;
#if PART == 0
i64 tags = 0;
const Maker mk_elem = mk<Elem>;
#elif PART == 1
const Maker mk_celem = mk<CElem>;
#elif PART == 2
const Maker mk_int = mk<int>;
#else
const Maker mk_str = mk<Str>;
#endif

#if PART == 0
static std::unique_ptr<SegBase> seg;
static void do_reset(const Op& op)
{
    seg.reset();
    tags = 0;
    const Maker makers[] = {mk_elem, mk_elem, mk_celem, mk_int, mk_str};
    seg.reset(makers[(u64)op.a[0] % 5]());
}
static void do_exec(const Op& op)
{
    if (seg)
    {
        seg->exec(op);
    }
}
static void do_finish()
{
    seg.reset();
    if (st.elems != 0)
    {
        fail("element-leak", "%lld elements are still alive after everything was destroyed", (long long)st.elems);
    }
}

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    reset.a[0] = (i64)r.below(5);
    out.push_back(reset);
    GenFaults gf;
    if (r.chance(80))
    {
        gf.rate = (int)r.range(15, 80);
        gf.kinds = {F_SOURCE, F_SOURCE, F_SOURCE, F_ALLOC, F_ALLOC, F_ALLOC_STICKY, F_ALLOC_SWEEP, F_COPY, F_COPY};
        gf.maxbits = (int)r.range(1, 7);
    }
    std::vector<int> ops;
    for (int k = 1; k < N_OPS; ++k)
    {
        if (r.chance(55))
        {
            ops.push_back(k);
        }
    }
    static const int ext[] = {op_list_extend, op_deque_back, op_deque_front, op_set_extend, op_dict_extend};
    ops.push_back(ext[r.below(5)]);
    int len = (int)r.range(5, thorough ? 60 : 30);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = ops[r.below(ops.size())];
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 20);
        }
        if (op.code != op_list_edit && op.code != op_deque_edit && op.code != op_set_edit && op.code != op_dict_edit && op.code != op_stream)
        {
            gf.apply(r, op);
        }
        out.push_back(op);
    }
}

namespace sim
{
World world = {"bulk", names, N_OPS, "digest of (operation, kind and size of the source, outcome, injected fault, sizes of the containers) over a whole history",
               "List, Deque, Set, Dict construction and extension from ranges; extraction of Int and Fraction through istream_iterator", "input ranges, element type, allocator, input device",
               gen, do_reset, do_exec, do_finish, 20000000, 40000, 20000000};
}
#endif
