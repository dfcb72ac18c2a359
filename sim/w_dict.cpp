// World: histories of Dict operations with failing allocations, element copies and comparisons (C08).
#include "elem.hpp"
#include <algorithm>
#include <memory>

using namespace sim;
using pyincpp::Dict;
using pyincpp::Pair;

#define OPS(X) \
    X(RESET) X(add) X(remove) X(pop) X(get) X(read) X(write) X(extend) X(clear) X(keys) X(values) X(items) X(min_max) X(query) X(equal) X(copy_assign) X(move_assign) X(swap) X(construct) X(iterate)
enum Code
{
#define X(n) op_##n,
    OPS(X)
#undef X
        N_OPS
};
static const char* const names[] = {
#define X(n) #n,
    OPS(X)
#undef X
};

struct ISeg
{
    virtual void exec(const Op&) = 0;
    virtual ~ISeg() {}
};

struct Ent
{
    MV k, v;
};
typedef std::vector<Ent> DModel; // ascending distinct keys

template <class K, class V>
struct Seg : ISeg
{
    static const int N = 3;
    typedef TR<K> RK;
    typedef TR<V> RV;
    typedef Dict<K, V> C;
    C D[N];
    DModel M[N];
    i64 next_tag = 1, domain;

    Seg(const Op& r) : domain(std::max<i64>(1, r.a[1]))
    {
        st.step_limit = r.a[3] ? world.step_limit * 400 : world.step_limit;
        // a large dictionary to start with
        for (i64 k = 0; k < r.a[3]; ++k)
        {
            i64 v = k * 2 + (i64)(mix2((u64)r.a[4], k) % 2);
            MV a{v, next_tag++}, b{(i64)(mix2((u64)r.a[4] + 1, k) % 1000), next_tag++};
            D[0].add(RK::make(a.v, a.tag), RV::make(b.v, b.tag));
            M[0].push_back({a, b});
        }
    }

    static std::string showm(const DModel& m)
    {
        std::string s = "{";
        for (auto& e : m)
        {
            s += fmt(" %lld#%lld:%lld#%lld", (long long)e.k.v, (long long)e.k.tag, (long long)e.v.v, (long long)e.v.tag);
        }
        return s + " }";
    }
    static std::string showd(const C& c)
    {
        std::string s = "{";
        for (auto it = c.begin(); it != c.end(); ++it)
        {
            s += fmt(" %lld#%lld:%lld#%lld", (long long)RK::val(it->first), (long long)RK::tag(it->first), (long long)RV::val(it->second), (long long)RV::tag(it->second));
        }
        return s + " }";
    }
    static bool eqk(const MV& a, const MV& b) { return a.v == b.v && (!RK::tagged || a.tag == b.tag); }
    static bool eqv(const MV& a, const MV& b) { return a.v == b.v && (!RV::tagged || a.tag == b.tag); }
    static bool matches(const C& c, const DModel& m)
    {
        if (c.size() != (int)m.size() || c.is_empty() != m.empty())
        {
            return false;
        }
        size_t i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i)
        {
            if (i >= m.size() || !same_elem(it->first, m[i].k) || !same_elem(it->second, m[i].v))
            {
                return false;
            }
        }
        return i == m.size();
    }
    void verify(const char* cls)
    {
        for (int i = 0; i < N; ++i)
        {
            if (!matches(D[i], M[i]))
            {
                fail(cls, "%s: %s on Dict<%s,%s> %d: holds %s, expected %s", cls, names[cur_op->code], RK::name, RV::name, i, showd(D[i]).c_str(), showm(M[i]).c_str());
            }
        }
        u64 h = 0;
        for (auto& e : M[0])
        {
            h = mix2(h, e.k.v * 1000 + e.v.v);
        }
        note(h);
    }
    int norm(i64 raw, i64 n) { return n > 0 ? (int)((u64)raw % n) : 0; }
    static Ent* at(DModel& m, i64 k)
    {
        for (auto& e : m)
        {
            if (e.k.v == k)
            {
                return &e;
            }
        }
        return nullptr;
    }
    static bool put(DModel& m, Ent e)
    {
        auto it = std::lower_bound(m.begin(), m.end(), e, [](const Ent& a, const Ent& b) { return a.k.v < b.k.v; });
        if (it != m.end() && it->k.v == e.k.v)
        {
            return false;
        }
        m.insert(it, e);
        return true;
    }
    void resync(int i, const DModel& given, bool keeps_old)
    {
        DModel now;
        i64 last = INT64_MIN;
        for (auto it = D[i].begin(); it != D[i].end(); ++it)
        {
            Ent e{{RK::val(it->first), RK::tag(it->first)}, {RV::val(it->second), RV::tag(it->second)}};
            auto is = [&](const Ent& m) { return eqk(m.k, e.k) && eqv(m.v, e.v); };
            if (std::none_of(M[i].begin(), M[i].end(), is) && std::none_of(given.begin(), given.end(), is))
            {
                fail("failed-op-damage", "after a failed %s: holds an entry (%lld:%lld) it never had", names[cur_op->code], (long long)e.k.v, (long long)e.v.v);
            }
            if (e.k.v <= last)
            {
                fail("failed-op-damage", "after a failed %s: keys are not ascending and distinct", names[cur_op->code]);
            }
            last = e.k.v;
            now.push_back(e);
        }
        if (keeps_old)
        {
            for (auto& e : M[i])
            {
                if (std::none_of(now.begin(), now.end(), [&](const Ent& x) { return eqk(x.k, e.k) && eqv(x.v, e.v); }))
                {
                    fail("failed-op-damage", "a failed %s lost key %lld", names[cur_op->code], (long long)e.k.v);
                }
            }
        }
        M[i] = now;
        verify("failed-op-damage");
    }

    void exec(const Op& op) override
    {
        int i = norm(op.a[0], N), j = norm(op.a[0] / N, N);
        C& d = D[i];
        const C& cd = d;
        DModel& m = M[i];
        int n = (int)m.size();
        bool alias = op.a[2] % 4 == 1 && n > 0;
        int ai = norm(op.a[1], n), av = norm(op.a[4], n);
        MV mk = alias ? m[ai].k : MV{(i64)((u64)op.a[1] % domain), next_tag++};
        MV mv = alias ? m[av].v : MV{(i64)((u64)op.a[3] % domain), next_tag++};
        K ownk = RK::make(mk.v, mk.tag);
        V ownv = RV::make(mv.v, mv.tag);
        const K& k = alias ? std::next(d.begin(), ai)->first : ownk;
        const V& v = alias ? std::next(d.begin(), av)->second : ownv;
        auto keep = [&](const Outcome&) {
            verify("failed-op-effect");
            return RETRY;
        };
        Ent* present = at(m, mk.v);
        switch (op.code)
        {
            case op_add: {
                bool r = false;
                Outcome o = run_op([&] { r = d.add(k, v); }, keep);
                if (o.k != OK)
                {
                    fail("refused-valid", "add refused");
                }
                if (r != put(m, {mk, mv}))
                {
                    fail("wrong-result", "add(%lld) returned %d", (long long)mk.v, r);
                }
                break;
            }
            case op_remove: {
                bool r = false;
                Outcome o = run_op([&] { r = d.remove(k); }, keep);
                if (o.k != OK)
                {
                    fail("refused-valid", "remove refused");
                }
                if (r != (present != nullptr))
                {
                    fail("wrong-result", "remove(%lld) returned %d", (long long)mk.v, r);
                }
                if (present)
                {
                    m.erase(m.begin() + (present - &m[0]));
                }
                break;
            }
            case op_pop: {
                Ent got{};
                Outcome o = run_op([&] {
                    auto r = d.pop();
                    Out out;
                    got = {{RK::val(r.first), RK::tag(r.first)}, {RV::val(r.second), RV::tag(r.second)}}; },
                                   keep);
                if (o.ok() != (n > 0))
                {
                    fail(n ? "refused-valid" : "accepted-invalid", "pop of a dictionary of %d", n);
                }
                if (n)
                {
                    auto it = std::find_if(m.begin(), m.end(), [&](const Ent& x) { return eqk(x.k, got.k) && eqv(x.v, got.v); });
                    if (it == m.end())
                    {
                        fail("wrong-result", "pop returned %lld:%lld, which the dictionary does not hold", (long long)got.k.v, (long long)got.v.v);
                    }
                    m.erase(it);
                }
                break;
            }
            case op_get: {
                MV got{};
                bool is_default = false;
                Outcome o = run_op([&] {
                    const V& r = cd.get(k, ownv);
                    Out out;
                    is_default = &r == &ownv;
                    got = {RV::val(r), RV::tag(r)}; },
                                   keep);
                if (o.k != OK)
                {
                    fail("refused-valid", "get refused");
                }
                MV want = present ? present->v : mv;
                if (!eqv(got, want) || is_default != !present)
                {
                    fail("wrong-result", "get(%lld) gave %lld, expected %lld", (long long)mk.v, (long long)got.v, (long long)want.v);
                }
                break;
            }
            case op_read: {
                MV got{}, got2{};
                Outcome o = run_op([&] {
                    const V& a = cd[k];
                    V& b = d[k];
                    Out out;
                    got = {RV::val(a), RV::tag(a)};
                    got2 = {RV::val(b), RV::tag(b)}; },
                                   keep);
                if (o.ok() != (present != nullptr))
                {
                    fail(present ? "refused-valid" : "accepted-invalid", "[%lld]", (long long)mk.v);
                }
                if (present && (!eqv(got, present->v) || !eqv(got2, present->v)))
                {
                    fail("wrong-result", "[%lld] is %lld, expected %lld", (long long)mk.v, (long long)got.v, (long long)present->v.v);
                }
                break;
            }
            case op_write: {
                Outcome o = run_op([&] { d[k] = ownv; }, keep);
                if (o.ok() != (present != nullptr))
                {
                    fail(present ? "refused-valid" : "accepted-invalid", "write to [%lld]", (long long)mk.v);
                }
                if (present)
                {
                    present->v = mv;
                }
                break;
            }
            case op_extend: {
                int cnt = norm(op.a[5], 9);
                std::vector<std::pair<K, V>> src;
                DModel add;
                for (int q = 0; q < cnt; ++q)
                {
                    Ent e{{(mk.v + q * 2) % domain, next_tag++}, {(mv.v + q) % domain, next_tag++}};
                    src.emplace_back(RK::make(e.k.v, e.k.tag), RV::make(e.v.v, e.v.tag));
                    add.push_back(e);
                }
                Outcome o = run_op([&] { d.extend(src.begin(), src.end()); }, [&](const Outcome&) {
                    resync(i, add, true);
                    return GIVE_UP;
                });
                if (o.ok())
                {
                    for (auto& e : add)
                    {
                        put(m, e);
                    }
                }
                for (int q = 0; q < cnt; ++q)
                {
                    if (!same_elem(src[q].first, add[q].k) || !same_elem(src[q].second, add[q].v))
                    {
                        fail("operand-changed", "extend changed its source");
                    }
                }
                break;
            }
            case op_clear:
                run_op([&] { d.clear(); }, keep);
                m.clear();
                break;
            case op_keys: {
                std::unique_ptr<pyincpp::Set<K>> r;
                if (run_op([&] { r.reset(new pyincpp::Set<K>(cd.keys())); }, keep).ok())
                {
                    Model want;
                    for (auto& e : m)
                    {
                        want.push_back(e.k);
                    }
                    if (!seq_equal<K>(*r, want))
                    {
                        fail("wrong-result", "keys() is %s of %s", show_cont<pyincpp::Set<K>, K>(*r).c_str(), showm(m).c_str());
                    }
                }
                break;
            }
            case op_values: {
                std::unique_ptr<pyincpp::Set<V>> r;
                if (run_op([&] { r.reset(new pyincpp::Set<V>(cd.values())); }, keep).ok())
                {
                    std::vector<i64> want, got;
                    for (auto& e : m)
                    {
                        want.push_back(e.v.v);
                    }
                    std::sort(want.begin(), want.end());
                    want.erase(std::unique(want.begin(), want.end()), want.end());
                    for (auto it = r->begin(); it != r->end(); ++it)
                    {
                        got.push_back(RV::val(*it));
                    }
                    if (got != want)
                    {
                        fail("wrong-result", "values() is %s of %s", show_cont<pyincpp::Set<V>, V>(*r).c_str(), showm(m).c_str());
                    }
                }
                break;
            }
            case op_items: {
                std::unique_ptr<pyincpp::Set<Pair<K, V>>> r;
                if (run_op([&] { r.reset(new pyincpp::Set<Pair<K, V>>(cd.items())); }, keep).ok())
                {
                    size_t q = 0;
                    bool good = r->size() == n;
                    for (auto it = r->begin(); good && it != r->end(); ++it, ++q)
                    {
                        good = q < m.size() && same_elem(it->first, m[q].k) && same_elem(it->second, m[q].v);
                    }
                    if (!good)
                    {
                        fail("wrong-result", "items() differs from %s", showm(m).c_str());
                    }
                }
                break;
            }
            case op_min_max: {
                MV lo{}, hi{};
                Outcome o = run_op([&] {
                    K a = cd.min();
                    K b = cd.max();
                    Out out;
                    lo = {RK::val(a), RK::tag(a)};
                    hi = {RK::val(b), RK::tag(b)}; },
                                   keep);
                if (o.ok() != (n > 0))
                {
                    fail(n ? "refused-valid" : "accepted-invalid", "min/max of a dictionary of %d", n);
                }
                if (n && (!eqk(lo, m.front().k) || !eqk(hi, m.back().k)))
                {
                    fail("wrong-result", "min %lld max %lld of %s", (long long)lo.v, (long long)hi.v, showm(m).c_str());
                }
                break;
            }
            case op_query: {
                bool c = false, f = false, right = true;
                Outcome o = run_op([&] {
                    c = cd.contains(k);
                    auto it = cd.find(k);
                    f = it != cd.end();
                    Out out;
                    right = !f || (RK::val(it->first) == mk.v); },
                                   keep);
                if (o.ok() && (c != (present != nullptr) || f != c || !right))
                {
                    fail("wrong-result", "contains/find of %lld in %s: %d %d", (long long)mk.v, showm(m).c_str(), c, f);
                }
                break;
            }
            case op_equal: {
                bool e = false, ne = false;
                Outcome o = run_op([&] {
                    e = static_cast<const C&>(D[i]) == static_cast<const C&>(D[j]);
                    ne = static_cast<const C&>(D[i]) != static_cast<const C&>(D[j]); },
                                   keep);
                if (o.ok())
                {
                    bool w = M[i].size() == M[j].size();
                    for (size_t q = 0; w && q < M[i].size(); ++q)
                    {
                        w = M[i][q].k.v == M[j][q].k.v && M[i][q].v.v == M[j][q].v.v;
                    }
                    if (e != w || ne == w)
                    {
                        fail("wrong-result", "equality of %s and %s", showm(M[i]).c_str(), showm(M[j]).c_str());
                    }
                }
                break;
            }
            case op_copy_assign: {
                DModel src = M[j];
                Outcome o = run_op([&] { d = static_cast<const C&>(D[j]); }, [&](const Outcome&) {
                    resync(i, src, false);
                    return GIVE_UP;
                });
                if (o.ok())
                {
                    m = src;
                }
                break;
            }
            case op_move_assign:
                if (i != j && run_op([&] { d = std::move(D[j]); }, keep).ok())
                {
                    m = M[j];
                    M[j].clear();
                }
                break;
            case op_swap:
                if (run_op([&] { using std::swap; swap(D[i], D[j]); }, keep).ok())
                {
                    std::swap(M[i], M[j]);
                }
                break;
            case op_construct: {
                std::vector<std::pair<K, V>> src;
                std::map<K, V> msrc;
                DModel add;
                int cnt = norm(op.a[5], 7);
                for (int q = 0; q < cnt; ++q)
                {
                    Ent e{{(mk.v + q * 3) % domain, next_tag++}, {(mv.v + q) % domain, next_tag++}};
                    src.emplace_back(RK::make(e.k.v, e.k.tag), RV::make(e.v.v, e.v.tag));
                    msrc.emplace(RK::make(e.k.v, e.k.tag), RV::make(e.v.v, e.v.tag));
                    put(add, e);
                }
                int mode = norm(op.a[3], 5);
                std::unique_ptr<C> fresh;
                Outcome o = run_op([&] {
                    switch (mode)
                    {
                        case 0: fresh.reset(new C(msrc)); break;
                        case 1: fresh.reset(new C(src.begin(), src.end())); break;
                        case 2: fresh.reset(new C(cd)); break;
                        case 3: fresh.reset(new C()); break;
                        default: fresh.reset(new C{{k, v}, {k, ownv}}); break;
                    } },
                                   keep);
                if (o.ok())
                {
                    DModel want = mode < 2 ? add : mode == 2 ? m : mode == 3 ? DModel() : DModel{{mk, mv}};
                    if (!matches(*fresh, want))
                    {
                        fail("wrong-result", "constructor gave %s, expected %s", showd(*fresh).c_str(), showm(want).c_str());
                    }
                    verify("operand-changed");
                    D[j] = std::move(*fresh);
                    M[j] = want;
                }
                break;
            }
            case op_iterate: {
                std::vector<i64> bw;
                run_op([&] {
                    for (auto it = d.rbegin(); it != d.rend(); ++it)
                    {
                        Out out;
                        bw.push_back(RK::val(it->first));
                    } },
                       keep);
                bool good = (int)bw.size() == n;
                for (int q = 0; good && q < n; ++q)
                {
                    good = bw[q] == m[n - 1 - q].k.v;
                }
                if (!good)
                {
                    fail("wrong-result", "reverse iteration is not descending over the keys");
                }
                break;
            }
        }
        verify("content");
        if (!alias && (!same_elem(ownk, mk) || !same_elem(ownv, mv)))
        {
            fail("operand-changed", "%s changed its argument", names[op.code]);
        }
    }
};

static std::unique_ptr<ISeg> seg;
static void do_reset(const Op& op)
{
    seg.reset();
    switch ((u64)op.a[0] % 5)
    {
        case 1: seg.reset(new Seg<int, Elem>(op)); break;
        case 2: seg.reset(new Seg<pyincpp::Str, pyincpp::Int>(op)); break;
        case 3: seg.reset(new Seg<CElem, CElem>(op)); break;
        default: seg.reset(new Seg<Elem, Elem>(op)); break;
    }
}
static void do_exec(const Op& op)
{
    if (seg)
    {
        seg->exec(op);
    }
}
static void do_finish() { seg.reset(); }

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    reset.a[0] = (i64)r.below(5);
    reset.a[1] = r.chance(70) ? r.range(3, 12) : r.range(20, 60);
    out.push_back(reset);
    GenFaults gf;
    static const int all[] = {F_ALLOC, F_ALLOC_STICKY, F_ALLOC_SWEEP, F_COPY, F_COMPARE};
    if (r.chance(80))
    {
        gf.rate = (int)r.range(10, 60);
        for (int k : all)
        {
            if (r.chance(60))
            {
                gf.kinds.push_back(k);
            }
        }
        gf.maxbits = (int)r.range(1, 6);
    }
    const Start start = start_size(r, gf, 9000);
    const bool large = start.n > 300;
    if (start.n)
    {
        reset.a[0] = start.cheap ? 1 : reset.a[0];
        reset.a[1] = start.n * 2;
        reset.a[2] = start.n * 2 + 100;
        reset.a[3] = start.n;
        reset.a[4] = (i64)r.below(1 << 20);
        out[0] = reset;
        probe(large ? "large_container" : "medium_container");
    }
    std::vector<int> ops;
    for (int k = 1; k < N_OPS; ++k)
    {
        if (r.chance(55))
        {
            ops.push_back(k);
        }
    }
    ops.push_back(op_add);
    ops.push_back(op_extend);
    int len = large ? (int)r.range(3, 8) : (int)r.range(6, thorough ? 60 : 40);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = ops[r.below(ops.size())];
        for (auto& a : op.a)
        {
            a = (i64)r.below(large ? 1 << 22 : 1 << 16);
        }
        gf.apply(r, op);
        out.push_back(op);
    }
}

namespace sim
{
World world = {"dict", names, N_OPS, "digest of (operation, outcome, injected fault, resulting content) over a whole history",
               "pyincpp::Dict, pyincpp::Set, pyincpp::Str, pyincpp::Int and their standard-library containers", "allocator (operator new), element types",
               gen, do_reset, do_exec, do_finish, 3000000, 300000, 40000000};
}
