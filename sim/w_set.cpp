// World: histories of Set operations with failing allocations, element copies and comparisons (C07).
#include "elem.hpp"
#include <algorithm>
#include <memory>

using namespace sim;
using pyincpp::Set;

#define OPS(X) \
    X(RESET) X(add) X(remove) X(pop) X(inter) X(unite) X(diff) X(sym) X(inter_assign) X(unite_assign) X(diff_assign) X(sym_assign) X(extend) X(clear) X(relation) X(query) X(min_max) X(copy_assign) X(move_assign) X(swap) X(construct) X(iterate) X(near)
enum Code
{
#define X(n) op_##n,
    OPS(X)
#undef X
        N_OPS
};
static const char* const names[] = {
#define X(n) #n,
    OPS(X)
#undef X
};

struct ISeg
{
    virtual void exec(const Op&) = 0;
    virtual ~ISeg() {}
};

static bool by_v(const MV& a, const MV& b) { return a.v < b.v; }

template <class T>
struct Seg : ISeg
{
    static const int N = 3;
    typedef TR<T> R;
    typedef Set<T> C;
    C S[N];
    Model M[N]; // sorted, distinct
    i64 next_tag = 1, domain;

    Seg(const Op& r) : domain(std::max<i64>(1, r.a[1]))
    {
        st.step_limit = r.a[3] ? world.step_limit * 400 : world.step_limit;
        // large sets to start with
        for (i64 k = 0; k < r.a[3]; ++k)
        {
            for (int i = 0; i < 2; ++i)
            {
                i64 v = k * 2 + (i64)(mix2((u64)r.a[4] + i, k) % 2), t = next_tag++;
                S[i].add(R::make(v, t));
                M[i].push_back({v, t});
            }
        }
    }

    std::string where(const C& l, const Model& m) { return fmt("%s<%s>: set is %s, expected %s (sizes %d, %zu)", names[cur_op->code], R::name, show_cont<C, T>(l).c_str(), show_model(m, R::tagged).c_str(), l.size(), m.size()); }
    void verify(const char* cls)
    {
        for (int i = 0; i < N; ++i)
        {
            if (!seq_equal<T>(S[i], M[i]))
            {
                fail(cls, "%s: set %d: %s", cls, i, where(S[i], M[i]).c_str());
            }
        }
        u64 h = 0;
        for (auto& e : M[0])
        {
            h = mix2(h, e.v);
        }
        note(h);
    }
    int norm(i64 raw, i64 n) { return n > 0 ? (int)((u64)raw % n) : 0; }
    static bool eq(const MV& a, const MV& b) { return a.v == b.v && (!R::tagged || a.tag == b.tag); }
    static bool has(const Model& m, i64 v) { return std::binary_search(m.begin(), m.end(), MV{v, 0}, by_v); }
    static bool put(Model& m, MV e)
    {
        auto it = std::lower_bound(m.begin(), m.end(), e, by_v);
        if (it != m.end() && it->v == e.v)
        {
            return false;
        }
        m.insert(it, e);
        return true;
    }

    // after a failed bulk operation: sorted, distinct, every element one that the set had or was given
    void resync(int i, const Model& given, bool keeps_old)
    {
        Model now;
        i64 last = INT64_MIN;
        for (auto it = S[i].begin(); it != S[i].end(); ++it)
        {
            MV e{R::val(*it), R::tag(*it)};
            auto is = [&](const MV& m) { return eq(m, e); };
            if (std::none_of(M[i].begin(), M[i].end(), is) && std::none_of(given.begin(), given.end(), is))
            {
                fail("failed-op-damage", "after a failed %s: the set holds an element (%lld) it never had", names[cur_op->code], (long long)e.v);
            }
            if (e.v <= last)
            {
                fail("failed-op-damage", "after a failed %s: elements are not ascending and distinct", names[cur_op->code]);
            }
            last = e.v;
            now.push_back(e);
        }
        if (keeps_old)
        {
            for (auto& e : M[i])
            {
                if (std::none_of(now.begin(), now.end(), [&](const MV& x) { return eq(x, e); }))
                {
                    fail("failed-op-damage", "a failed %s lost element %lld", names[cur_op->code], (long long)e.v);
                }
            }
        }
        M[i] = now;
        verify("failed-op-damage");
    }

    Model combine(int code, const Model& a, const Model& b)
    {
        Model r;
        switch (code)
        {
            case op_inter:
                for (auto& e : a) if (has(b, e.v)) put(r, e);
                break;
            case op_unite:
                std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r), by_v);
                break;
            case op_diff:
                for (auto& e : a) if (!has(b, e.v)) put(r, e);
                break;
            default:
                std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r), by_v);
                break;
        }
        return r;
    }

    void exec(const Op& op) override
    {
        int i = norm(op.a[0], N), j = norm(op.a[0] / N, N);
        C& s = S[i];
        Model& m = M[i];
        int n = (int)m.size();
        i64 v = (i64)((u64)op.a[1] % domain);
        bool alias = op.a[2] % 4 == 1 && n > 0;
        int ai = norm(op.a[1], n);
        i64 tag = next_tag++;
        MV me = alias ? m[ai] : MV{v, tag};
        T own = R::make(me.v, me.tag);
        const T& e = alias ? *std::next(s.begin(), ai) : own;
        auto keep = [&](const Outcome&) {
            verify("failed-op-effect");
            return RETRY;
        };
        switch (op.code)
        {
            case op_add: {
                bool r = false;
                Outcome o = run_op([&] { r = s.add(e); }, keep);
                if (o.k != OK)
                {
                    fail("refused-valid", "add refused");
                }
                if (r != put(m, me))
                {
                    fail("wrong-result", "add(%lld) returned %d", (long long)me.v, r);
                }
                break;
            }
            case op_remove: {
                bool r = false;
                Outcome o = run_op([&] { r = s.remove(e); }, keep);
                if (o.k != OK)
                {
                    fail("refused-valid", "remove refused");
                }
                if (r != has(m, me.v))
                {
                    fail("wrong-result", "remove(%lld) returned %d", (long long)me.v, r);
                }
                m.erase(std::remove_if(m.begin(), m.end(), [&](const MV& x) { return x.v == me.v; }), m.end());
                break;
            }
            case op_pop: {
                MV got{};
                Outcome o = run_op([&] {
                    T r = s.pop();
                    Out out;
                    got = {R::val(r), R::tag(r)}; },
                                   keep);
                if (o.ok() != (n > 0))
                {
                    fail(n ? "refused-valid" : "accepted-invalid", "pop of a set of %d", n);
                }
                if (n)
                {
                    auto it = std::find_if(m.begin(), m.end(), [&](const MV& x) { return eq(x, got); });
                    if (it == m.end())
                    {
                        fail("wrong-result", "pop returned %lld, which the set does not hold", (long long)got.v);
                    }
                    m.erase(it);
                }
                break;
            }
            case op_inter:
            case op_unite:
            case op_diff:
            case op_sym: {
                std::unique_ptr<C> r;
                Outcome o = run_op([&] {
                    const C &a = S[i], &b = S[j];
                    switch (op.code)
                    {
                        case op_inter: r.reset(new C(a & b)); break;
                        case op_unite: r.reset(new C(a | b)); break;
                        case op_diff: r.reset(new C(a - b)); break;
                        default: r.reset(new C(a ^ b)); break;
                    } },
                                   keep);
                if (o.ok())
                {
                    Model want = combine(op.code, M[i], M[j]);
                    // either operand's copy of an equal element may be kept
                    bool good = (size_t)r->size() == want.size();
                    size_t k = 0;
                    for (auto it = r->begin(); good && it != r->end(); ++it, ++k)
                    {
                        good = k < want.size() && R::val(*it) == want[k].v;
                    }
                    if (!good || k != want.size())
                    {
                        fail("wrong-result", "%s", where(*r, want).c_str());
                    }
                    verify("operand-changed");
                }
                break;
            }
            case op_inter_assign:
            case op_unite_assign:
            case op_diff_assign:
            case op_sym_assign: {
                Outcome o = run_op([&] {
                    const C& b = S[j];
                    switch (op.code)
                    {
                        case op_inter_assign: SELF(s, s &= b); break;
                        case op_unite_assign: SELF(s, s |= b); break;
                        case op_diff_assign: SELF(s, s -= b); break;
                        default: SELF(s, s ^= b); break;
                    } },
                                   keep);
                if (o.ok())
                {
                    Model old = m, other = M[j];
                    m = combine(op.code - op_inter_assign + op_inter, m, M[j]);
                    size_t k = 0;
                    for (auto it = s.begin(); it != s.end() && k < m.size(); ++it, ++k)
                    {
                        if (R::tagged && R::val(*it) == m[k].v)
                        {
                            MV x{R::val(*it), R::tag(*it)};
                            auto is = [&](const MV& y) { return eq(x, y); };
                            if (std::any_of(old.begin(), old.end(), is) || std::any_of(other.begin(), other.end(), is))
                            {
                                m[k].tag = x.tag;
                            }
                        }
                    }
                }
                break;
            }
            case op_extend: {
                int cnt = pick_count(op, 10);
                std::vector<T> src;
                Model add;
                for (int k = 0; k < cnt; ++k)
                {
                    i64 vv = (v + k * (1 + norm(op.a[4], 7))) % domain, tt = next_tag++;
                    src.push_back(R::make(vv, tt));
                    add.push_back({vv, tt});
                }
                Outcome o = run_op([&] { s.extend(src.begin(), src.end()); }, [&](const Outcome&) {
                    resync(i, add, true);
                    return GIVE_UP;
                });
                if (o.ok())
                {
                    for (auto& x : add)
                    {
                        put(m, x);
                    }
                }
                for (int k = 0; k < cnt; ++k)
                {
                    if (!same_elem(src[k], add[k]))
                    {
                        fail("operand-changed", "extend changed its source");
                    }
                }
                break;
            }
            case op_clear:
                run_op([&] { s.clear(); }, keep);
                m.clear();
                break;
            case op_relation: {
                bool q[6] = {};
                Outcome o = run_op([&] {
                    const C &a = S[i], &b = S[j];
                    q[0] = a == b;
                    q[1] = a != b;
                    q[2] = a < b;
                    q[3] = a <= b;
                    q[4] = a > b;
                    q[5] = a >= b; },
                                   keep);
                if (o.ok())
                {
                    bool sub = true, sup = true;
                    for (auto& x : M[i]) sub &= has(M[j], x.v);
                    for (auto& x : M[j]) sup &= has(M[i], x.v);
                    bool w[6] = {sub && sup, !(sub && sup), sub && !sup, sub, sup && !sub, sup};
                    for (int k = 0; k < 6; ++k)
                    {
                        if (q[k] != w[k])
                        {
                            fail("wrong-result", "relation %d of %s and %s is %d", k, show_model(M[i], false).c_str(), show_model(M[j], false).c_str(), q[k]);
                        }
                    }
                }
                break;
            }
            case op_query: {
                bool c = false, f = false;
                MV at{};
                Outcome o = run_op([&] {
                    const C& k = s;
                    c = k.contains(e);
                    auto it = k.find(e);
                    f = it != k.end();
                    Out out;
                    if (f)
                    {
                        at = {R::val(*it), R::tag(*it)};
                    } },
                                   keep);
                if (o.ok() && (c != has(m, me.v) || f != c || (f && at.v != me.v)))
                {
                    fail("wrong-result", "contains/find of %lld in %s: %d %d", (long long)me.v, show_model(m, false).c_str(), c, f);
                }
                break;
            }
            case op_min_max: {
                MV lo{}, hi{};
                Outcome o = run_op([&] {
                    T a = static_cast<const C&>(s).min();
                    T b = static_cast<const C&>(s).max();
                    Out out;
                    lo = {R::val(a), R::tag(a)};
                    hi = {R::val(b), R::tag(b)}; },
                                   keep);
                if (o.ok() != (n > 0))
                {
                    fail(n ? "refused-valid" : "accepted-invalid", "min/max of a set of %d", n);
                }
                if (n && (!eq(lo, m.front()) || !eq(hi, m.back())))
                {
                    fail("wrong-result", "min %lld max %lld of %s", (long long)lo.v, (long long)hi.v, show_model(m, R::tagged).c_str());
                }
                break;
            }
            case op_copy_assign: {
                Model src = M[j];
                Outcome o = run_op([&] { s = static_cast<const C&>(S[j]); }, [&](const Outcome&) {
                    resync(i, src, false);
                    return GIVE_UP;
                });
                if (o.ok())
                {
                    m = src;
                }
                break;
            }
            case op_move_assign:
                if (i != j && run_op([&] { s = std::move(S[j]); }, keep).ok())
                {
                    m = M[j];
                    M[j].clear();
                }
                break;
            case op_swap:
                if (run_op([&] { using std::swap; swap(S[i], S[j]); }, keep).ok())
                {
                    std::swap(M[i], M[j]);
                }
                break;
            case op_construct: {
                std::vector<T> src;
                std::set<T> ssrc;
                Model add;
                int cnt = norm(op.a[3], 8);
                for (int k = 0; k < cnt; ++k)
                {
                    i64 vv = (v + k * 3) % domain, tt = next_tag++;
                    src.push_back(R::make(vv, tt));
                    ssrc.insert(R::make(vv, tt));
                    put(add, {vv, tt});
                }
                int mode = norm(op.a[4], 5);
                std::unique_ptr<C> fresh;
                Outcome o = run_op([&] {
                    switch (mode)
                    {
                        case 0: fresh.reset(new C(ssrc)); break;
                        case 1: fresh.reset(new C(src.begin(), src.end())); break;
                        case 2: fresh.reset(new C(static_cast<const C&>(s))); break;
                        case 3: fresh.reset(new C()); break;
                        default: fresh.reset(new C{e, e, own}); break;
                    } },
                                   keep);
                if (o.ok())
                {
                    Model want = mode < 2 ? add : mode == 2 ? m : mode == 3 ? Model() : Model{me};
                    if (!seq_equal<T>(*fresh, want))
                    {
                        fail("wrong-result", "constructor: %s", where(*fresh, want).c_str());
                    }
                    verify("operand-changed");
                    S[j] = std::move(*fresh);
                    M[j] = want;
                }
                break;
            }
            case op_near:
                // another set becomes a copy of this one with an element or two exchanged
                if (i != j)
                {
                    Model near = m;
                    for (int k = 0; k < 1 + norm(op.a[4], 2) && !near.empty(); ++k)
                    {
                        size_t at = norm(op.a[3] + k * 7, (i64)near.size());
                        if (op.a[5] % 4)
                        {
                            MV x{near[at].v + 1, next_tag++};
                            near.erase(near.begin() + at);
                            put(near, x);
                        }
                        else
                        {
                            near.erase(near.begin() + at);
                        }
                    }
                    S[j].clear();
                    for (auto& x : near)
                    {
                        S[j].add(R::make(x.v, x.tag));
                    }
                    M[j] = near;
                    Op sub = op;
                    sub.code = op.a[5] % 3 ? op_relation : op_sym;
                    exec(sub);
                }
                break;
            case op_iterate: {
                std::vector<i64> bw;
                run_op([&] {
                    for (auto it = s.rbegin(); it != s.rend(); ++it)
                    {
                        Out out;
                        bw.push_back(R::val(*it));
                    } },
                       keep);
                bool good = (int)bw.size() == n;
                for (int k = 0; good && k < n; ++k)
                {
                    good = bw[k] == m[n - 1 - k].v;
                }
                if (!good)
                {
                    fail("wrong-result", "reverse iteration is not descending over the elements");
                }
                break;
            }
        }
        verify("content");
        if (!alias && !same_elem(own, me))
        {
            fail("operand-changed", "%s changed its argument", names[op.code]);
        }
    }
};

static std::unique_ptr<ISeg> seg;
static void do_reset(const Op& op)
{
    seg.reset();
    switch ((u64)op.a[0] % 5)
    {
        case 1: seg.reset(new Seg<int>(op)); break;
        case 2: seg.reset(new Seg<pyincpp::Str>(op)); break;
        case 3: seg.reset(new Seg<CElem>(op)); break;
        default: seg.reset(new Seg<Elem>(op)); break;
    }
}
static void do_exec(const Op& op)
{
    if (seg)
    {
        seg->exec(op);
    }
}
static void do_finish() { seg.reset(); }

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    reset.a[0] = (i64)r.below(5);
    reset.a[1] = r.chance(70) ? r.range(3, 12) : r.range(20, 80);
    out.push_back(reset);
    GenFaults gf;
    static const int all[] = {F_ALLOC, F_ALLOC_STICKY, F_ALLOC_SWEEP, F_COPY, F_COMPARE};
    if (r.chance(80))
    {
        gf.rate = (int)r.range(10, 60);
        for (int k : all)
        {
            if (r.chance(60))
            {
                gf.kinds.push_back(k);
            }
        }
        gf.maxbits = (int)r.range(1, 6);
    }
    const Start start = start_size(r, gf, 9000);
    const bool large = start.n > 300;
    if (start.n)
    {
        reset.a[0] = start.cheap ? 1 : reset.a[0];
        reset.a[1] = start.n * 2;
        reset.a[2] = start.n * 2 + 100;
        reset.a[3] = start.n;
        reset.a[4] = (i64)r.below(1 << 20);
        out[0] = reset;
        probe(large ? "large_container" : "medium_container");
    }
    std::vector<int> ops;
    for (int k = 1; k < N_OPS; ++k)
    {
        if (r.chance(55))
        {
            ops.push_back(k);
        }
    }
    ops.push_back(op_add);
    ops.push_back(op_extend);
    int len = large ? (int)r.range(3, 8) : (int)r.range(6, thorough ? 60 : 40);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = ops[r.below(ops.size())];
        for (auto& a : op.a)
        {
            a = (i64)r.below(large ? 1 << 22 : 1 << 16);
        }
        gf.apply(r, op);
        out.push_back(op);
    }
}

namespace sim
{
World world = {"set", names, N_OPS, "digest of (operation, outcome, injected fault, resulting content) over a whole history",
               "pyincpp::Set, pyincpp::Str and their standard-library containers", "allocator (operator new), element types",
               gen, do_reset, do_exec, do_finish, 3000000, 300000, 40000000};
}
