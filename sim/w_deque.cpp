// World: histories of Deque operations with failing allocations and element copies (C06).
#include "elem.hpp"
#include <algorithm>
#include <memory>

using namespace sim;
using pyincpp::Deque;

#define OPS(X) \
    X(RESET) X(push_back) X(push_front) X(pop_back) X(pop_front) X(extend_back) X(extend_front) X(rot_right) X(rot_left) X(reverse) X(clear) X(read_ends) X(write_ends) X(read_index) X(write_index) X(copy_assign) X(move_assign) X(swap) X(construct) X(compare) X(iterate) X(queue_run)
enum Code
{
#define X(n) op_##n,
    OPS(X)
#undef X
        N_OPS
};
static const char* const names[] = {
#define X(n) #n,
    OPS(X)
#undef X
};

struct ISeg
{
    virtual void exec(const Op&) = 0;
    virtual ~ISeg() {}
};

template <class T>
struct Seg : ISeg
{
    static const int N = 3;
    typedef TR<T> R;
    typedef Deque<T> C;
    C L[N];
    Model M[N];
    i64 next_tag = 1, domain;
    size_t maxlen;

    Seg(const Op& r) : domain(std::max<i64>(1, r.a[1])), maxlen(std::max<i64>(4, r.a[2]))
    {
        st.step_limit = r.a[3] ? world.step_limit * 400 : world.step_limit;
        // a large deque to start with
        for (i64 k = 0; k < r.a[3]; ++k)
        {
            i64 v = (i64)(mix2((u64)r.a[4], k) % domain), t = next_tag++;
            L[0].push_back(R::make(v, t));
            M[0].push_back({v, t});
        }
    }

    std::string where(const C& l, const Model& m) { return fmt("%s<%s>: deque is %s, expected %s (sizes %d, %zu)", names[cur_op->code], R::name, show_cont<C, T>(l).c_str(), show_model(m, R::tagged).c_str(), l.size(), m.size()); }
    void verify(const char* cls)
    {
        for (int i = 0; i < N; ++i)
        {
            if (!seq_equal<T>(L[i], M[i]))
            {
                fail(cls, "%s: deque %d: %s", cls, i, where(L[i], M[i]).c_str());
            }
        }
        u64 h = 0;
        for (auto& e : M[0])
        {
            h = mix2(h, e.v);
        }
        note(h);
    }
    int norm(i64 raw, i64 n) { return n > 0 ? (int)((u64)raw % n) : 0; }

    void resync(int i, const Model& given, size_t max_size)
    {
        if ((size_t)L[i].size() > max_size)
        {
            fail("failed-op-damage", "after a failed operation: %d elements, more than %zu", L[i].size(), max_size);
        }
        Model now;
        int n = 0;
        for (auto it = L[i].begin(); it != L[i].end(); ++it, ++n)
        {
            MV e{R::val(*it), R::tag(*it)};
            auto is = [&](const MV& m) { return m.v == e.v && (!R::tagged || m.tag == e.tag); };
            if (!R::moved(*it) && std::none_of(M[i].begin(), M[i].end(), is) && std::none_of(given.begin(), given.end(), is))
            {
                fail("failed-op-damage", "after a failed %s: the deque holds an element (%lld) it never had", names[cur_op->code], (long long)e.v);
            }
            now.push_back(e);
        }
        if (n != L[i].size())
        {
            fail("failed-op-damage", "iteration finds %d elements, size() says %d", n, L[i].size());
        }
        for (int k = 0; k < n; ++k)
        {
            if (R::moved(L[i][k]))
            {
                if (R::strong)
                {
                    fail("failed-op-damage", "after a failed %s: element %d is what was left of an element moved away", names[cur_op->code], k);
                }
                now[k] = {0, 0};
                L[i][k] = R::make(0, 0);
            }
        }
        M[i] = now;
        verify("failed-op-damage");
    }
    static bool eq(const MV& a, const MV& b) { return a.v == b.v && (!R::tagged || a.tag == b.tag); }

    void pop(const Op& op, int i)
    {
        C& l = L[i];
        Model& m = M[i];
        bool back = op.code == op_pop_back;
        MV got{0, 0};
        bool lost = false;
        Outcome o = run_op([&] {
            T r = back ? l.pop_back() : l.pop_front();
            Out out;
            got = {R::val(r), R::tag(r)}; },
                           [&](const Outcome&) {
                               if (!R::strong && l.size() + 1 == (int)m.size())
                               {
                                   // an element whose every move is a failing copy may be lost on its way out
                                   m.erase(back ? m.end() - 1 : m.begin());
                                   lost = true;
                               }
                               verify("failed-op-effect");
                               return lost ? GIVE_UP : RETRY;
                           });
        if (lost)
        {
            return;
        }
        if (m.empty())
        {
            if (o.k == OK)
            {
                fail("accepted-invalid", "%s of an empty deque", names[op.code]);
            }
            return;
        }
        if (o.k != OK)
        {
            fail("refused-valid", "%s refused: %s", names[op.code], o.what.c_str());
        }
        MV w = back ? m.back() : m.front();
        if (!eq(got, w))
        {
            fail("wrong-result", "%s<%s> returned %lld#%lld, expected %lld#%lld", names[op.code], R::name, (long long)got.v, (long long)got.tag, (long long)w.v, (long long)w.tag);
        }
        m.erase(back ? m.end() - 1 : m.begin());
    }
    void push(bool back, int i, const T& e, MV me)
    {
        C& l = L[i];
        Outcome o = run_op([&] { back ? l.push_back(e) : l.push_front(e); }, [&](const Outcome&) {
            verify("failed-op-effect");
            return RETRY;
        });
        if (o.k != OK)
        {
            fail("refused-valid", "push refused");
        }
        M[i].insert(back ? M[i].end() : M[i].begin(), me);
    }

    // brings deque i to a size at or next to a multiple of a power of two, where storage blocks begin and end
    void align(const Op& op, int i)
    {
        const bool back = op.a[2] % 8 < 4;
        const i64 n = (i64)M[i].size(), unit = 8ll << ((u64)op.a[4] % 8), want = n / unit * unit + (i64)((u64)op.a[3] % 6 == 0) - (i64)((u64)op.a[3] % 6 == 1);
        if (n < unit || want <= 0 || want >= n || n - want > 600)
        {
            return;
        }
        must("pops", [&] {
            while (L[i].size() > (int)want)
            {
                back ? (void)L[i].pop_back() : (void)L[i].pop_front();
            } });
        M[i].erase(back ? M[i].begin() + want : M[i].begin(), back ? M[i].end() : M[i].end() - want);
        if (unit >= 256)
        {
            probe("aligned_to_large_block");
        }
    }

    void exec(const Op& op) override
    {
        if (op.code >= op_push_back && op.code <= op_pop_front && (u64)op.a[5] % 3 == 0)
        {
            align(op, norm(op.a[0], N));
        }
        int i = norm(op.a[0], N), j = norm(op.a[0] / N, N);
        C& l = L[i];
        Model& m = M[i];
        int n = (int)m.size();
        i64 v = (i64)((u64)op.a[1] % domain);
        bool alias = op.a[2] % 4 == 1 && n > 0;
        int ai = norm(op.a[1], n);
        i64 tag = next_tag++;
        MV me = alias ? m[ai] : MV{v, tag};
        T own = R::make(me.v, me.tag);
        const T& e = alias ? static_cast<const C&>(l)[ai] : own;
        auto keep = [&](const Outcome&) {
            verify("failed-op-effect");
            return RETRY;
        };
        auto lenient = [&](const Outcome&) {
            resync(i, {}, n);
            return GIVE_UP;
        };

        switch (op.code)
        {
            case op_push_back:
            case op_push_front: push(op.code == op_push_back, i, e, me); break;
            case op_pop_back:
            case op_pop_front: pop(op, i); break;
            case op_queue_run: {
                // a burst of pushes on one side and pops on either, as a queue or stack user does
                int cnt = norm(op.a[3], 40), drop = norm(op.a[4], 40);
                bool back = op.a[5] % 2;
                Op sub = op;
                for (int k = 0; k < cnt; ++k)
                {
                    i64 t = next_tag++;
                    T x = R::make((v + k) % domain, t);
                    push(back, i, x, {(v + k) % domain, t});
                }
                for (int k = 0; k < drop; ++k)
                {
                    sub.code = op.a[5] & 2 ? op_pop_back : op_pop_front;
                    pop(sub, i);
                }
                break;
            }
            case op_extend_back:
            case op_extend_front: {
                int cnt = pick_count(op, op.a[5] % 8 == 1 ? 3 * n + 8 : 8);
                bool back = op.code == op_extend_back;
                std::vector<T> src;
                Model add;
                for (int k = 0; k < cnt; ++k)
                {
                    i64 vv = (v + k * 5) % domain, tt = next_tag++;
                    src.push_back(R::make(vv, tt));
                    add.push_back({vv, tt});
                }
                Outcome o = run_op([&] { back ? l.extend_back(src.begin(), src.end()) : l.extend_front(src.begin(), src.end()); }, [&](const Outcome&) {
                    resync(i, add, n + cnt);
                    return GIVE_UP;
                });
                if (o.ok())
                {
                    m.insert(back ? m.end() : m.begin(), add.begin(), add.end());
                }
                for (int k = 0; k < cnt; ++k)
                {
                    if (!same_elem(src[k], add[k]))
                    {
                        fail("operand-changed", "extension changed its source");
                    }
                }
                break;
            }
            case op_rot_right:
            case op_rot_left: {
                int k = pick_distance(op, n);
                Outcome o = run_op([&] {
                    op.code == op_rot_right ? SELF(l, l >>= k) : SELF(l, l <<= k); },
                                   lenient);
                if (o.ok() && n > 1)
                {
                    i64 left = op.code == op_rot_left ? k : -(i64)k;
                    left = ((left % n) + n) % n;
                    std::rotate(m.begin(), m.begin() + left, m.end());
                }
                break;
            }
            case op_reverse: {
                Outcome o = run_op([&] { SELF(l, l.reverse()); }, lenient);
                if (o.ok())
                {
                    std::reverse(m.begin(), m.end());
                }
                break;
            }
            case op_clear: {
                run_op([&] { l.clear(); }, lenient);
                m.clear();
                break;
            }
            case op_read_ends: {
                MV b{}, f{}, cb{}, cf{};
                Outcome o = run_op([&] {
                    T& x = l.back();
                    const T& y = static_cast<const C&>(l).back();
                    T& z = l.front();
                    const T& w = static_cast<const C&>(l).front();
                    Out out;
                    b = {R::val(x), R::tag(x)};
                    cb = {R::val(y), R::tag(y)};
                    f = {R::val(z), R::tag(z)};
                    cf = {R::val(w), R::tag(w)}; },
                                   keep);
                if (o.ok() != (n > 0))
                {
                    fail(n ? "refused-valid" : "accepted-invalid", "front/back of a deque of %d elements", n);
                }
                if (n && (!eq(b, m.back()) || !eq(cb, m.back()) || !eq(f, m.front()) || !eq(cf, m.front())))
                {
                    fail("wrong-result", "front/back: %s", where(l, m).c_str());
                }
                break;
            }
            case op_write_ends: {
                bool back = op.a[3] % 2;
                Outcome o = run_op([&] { (back ? l.back() : l.front()) = own; }, keep);
                if (o.ok() && n)
                {
                    (back ? m.back() : m.front()) = me;
                }
                break;
            }
            case op_read_index: {
                for (int idx = -n - 1; idx <= n; idx += (n > 40 ? 7 : 1))
                {
                    bool okidx = idx >= -n && idx < n;
                    MV got{}, got2{};
                    Outcome o = run_op([&] {
                        const T& a = static_cast<const C&>(l)[idx];
                        T& b = l[idx];
                        Out out;
                        got = {R::val(a), R::tag(a)};
                        got2 = {R::val(b), R::tag(b)}; },
                                       keep);
                    if (o.ok() != okidx)
                    {
                        fail(okidx ? "refused-valid" : "accepted-invalid", "[%d] of %d", idx, n);
                    }
                    if (okidx && (!eq(got, m[idx < 0 ? idx + n : idx]) || !eq(got2, m[idx < 0 ? idx + n : idx])))
                    {
                        fail("wrong-result", "[%d]: %s", idx, where(l, m).c_str());
                    }
                }
                break;
            }
            case op_write_index: {
                int idx = pick_index(op, n);
                bool okidx = idx >= -n && idx < n;
                Outcome o = run_op([&] { l[idx] = own; }, keep);
                if (o.ok() != okidx)
                {
                    fail(okidx ? "refused-valid" : "accepted-invalid", "[%d] of %d", idx, n);
                }
                if (okidx)
                {
                    m[idx < 0 ? idx + n : idx] = me;
                }
                break;
            }
            case op_copy_assign: {
                Model src = M[j];
                Outcome o = run_op([&] { l = static_cast<const C&>(L[j]); }, [&](const Outcome&) {
                    resync(i, src, std::max(src.size(), m.size()));
                    return GIVE_UP;
                });
                if (o.ok())
                {
                    m = src;
                }
                break;
            }
            case op_move_assign: {
                if (i != j)
                {
                    // (an implementation may allocate while moving: both sides stay valid then)
                    Outcome o = run_op([&] { l = std::move(L[j]); }, [&](const Outcome&) {
                        Model given = M[j];
                        resync(j, {}, M[j].size());
                        resync(i, given, std::max(given.size(), m.size()));
                        return GIVE_UP;
                    });
                    if (o.ok())
                    {
                        m = M[j];
                        M[j].clear();
                    }
                }
                break;
            }
            case op_swap: {
                Outcome o = run_op([&] { using std::swap; swap(L[i], L[j]); }, [&](const Outcome&) {
                    // std::swap goes through a move construction, which may allocate
                    Model a = M[i], b = M[j];
                    a.insert(a.end(), b.begin(), b.end());
                    size_t mx = a.size();
                    resync(i, a, mx);
                    if (i != j)
                    {
                        resync(j, a, mx);
                    }
                    return GIVE_UP;
                });
                if (o.ok())
                {
                    std::swap(M[i], M[j]);
                }
                break;
            }
            case op_construct: {
                std::vector<T> src;
                std::deque<T> dsrc;
                Model add;
                int cnt = norm(op.a[3], 8);
                for (int k = 0; k < cnt; ++k)
                {
                    i64 vv = (v + k * 7) % domain, tt = next_tag++;
                    src.push_back(R::make(vv, tt));
                    dsrc.push_back(R::make(vv, tt));
                    add.push_back({vv, tt});
                }
                int mode = norm(op.a[4], 5);
                std::unique_ptr<C> fresh;
                Outcome o = run_op([&] {
                    switch (mode)
                    {
                        case 0: fresh.reset(new C(dsrc)); break;
                        case 1: fresh.reset(new C(src.begin(), src.end())); break;
                        case 2: fresh.reset(new C(static_cast<const C&>(l))); break;
                        case 3: fresh.reset(new C()); break;
                        default: fresh.reset(new C{e, e, own}); break;
                    } },
                                   keep);
                if (o.ok())
                {
                    Model want = mode < 2 ? add : mode == 2 ? m : mode == 3 ? Model() : Model{me, me, me};
                    if (!seq_equal<T>(*fresh, want))
                    {
                        fail("wrong-result", "constructor: %s", where(*fresh, want).c_str());
                    }
                    verify("operand-changed");
                    L[j] = std::move(*fresh);
                    M[j] = want;
                }
                break;
            }
            case op_compare: {
                bool eqv = false, ne = false, lt = false, ge = false, gt = false, le = false;
                Outcome o = run_op([&] {
                    const C &a = L[i], &b = L[j];
                    eqv = a == b;
                    ne = a != b;
                    lt = a < b;
                    ge = a >= b;
                    gt = a > b;
                    le = a <= b; },
                                   keep);
                if (o.ok())
                {
                    int c = 0;
                    for (size_t k = 0; k < M[i].size() && k < M[j].size() && !c; ++k)
                    {
                        c = M[i][k].v < M[j][k].v ? -1 : M[i][k].v > M[j][k].v;
                    }
                    if (!c)
                    {
                        c = M[i].size() < M[j].size() ? -1 : M[i].size() > M[j].size();
                    }
                    if (eqv != (c == 0) || ne != (c != 0) || lt != (c < 0) || ge != (c >= 0) || gt != (c > 0) || le != (c <= 0))
                    {
                        fail("wrong-result", "comparison of %s and %s", show_model(M[i], false).c_str(), show_model(M[j], false).c_str());
                    }
                }
                break;
            }
            case op_iterate: {
                std::vector<i64> bw;
                run_op([&] {
                    for (auto it = l.rbegin(); it != l.rend(); ++it)
                    {
                        Out out;
                        bw.push_back(R::val(*it));
                    } },
                       keep);
                bool good = (int)bw.size() == n;
                for (int k = 0; good && k < n; ++k)
                {
                    good = bw[k] == m[n - 1 - k].v;
                }
                if (!good)
                {
                    fail("wrong-result", "reverse iteration does not visit the elements in order");
                }
                break;
            }
        }
        verify("content");
        if (!alias && !same_elem(own, me))
        {
            fail("operand-changed", "%s changed its argument", names[op.code]);
        }
        if (M[i].size() > maxlen)
        {
            probe("long_deque_cleared");
            L[i].clear();
            M[i].clear();
        }
    }
};

static std::unique_ptr<ISeg> seg;
static void do_reset(const Op& op)
{
    seg.reset();
    switch ((u64)op.a[0] % 5)
    {
        case 1: seg.reset(new Seg<int>(op)); break;
        case 2: seg.reset(new Seg<pyincpp::Str>(op)); break;
        case 3: seg.reset(new Seg<CElem>(op)); break;
        default: seg.reset(new Seg<Elem>(op)); break;
    }
}
static void do_exec(const Op& op)
{
    if (seg)
    {
        seg->exec(op);
    }
}
static void do_finish() { seg.reset(); }

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    reset.a[0] = (i64)r.below(5);
    reset.a[1] = r.chance(70) ? r.range(3, 12) : r.range(20, 60);
    reset.a[2] = r.chance(60) ? 60 : 400;
    out.push_back(reset);
    GenFaults gf;
    static const int all[] = {F_ALLOC, F_ALLOC_STICKY, F_ALLOC_SWEEP, F_COPY, F_COMPARE};
    if (r.chance(80))
    {
        gf.rate = (int)r.range(10, 60);
        for (int k : all)
        {
            if (r.chance(60))
            {
                gf.kinds.push_back(k);
            }
        }
        gf.maxbits = (int)r.range(1, 6);
    }
    const Start start = start_size(r, gf, 150000);
    const bool large = start.n > 300;
    if (start.n)
    {
        reset.a[0] = start.cheap ? 1 : reset.a[0];
        reset.a[1] = r.chance(50) ? r.range(3, 20) : r.chance(50) ? 200 : 1500;
        reset.a[2] = start.n * 2 + 100;
        reset.a[3] = start.n;
        reset.a[4] = (i64)r.below(1 << 20);
        out[0] = reset;
        probe(large ? "large_container" : "medium_container");
    }
    std::vector<int> ops;
    for (int k = 1; k < N_OPS; ++k)
    {
        if (r.chance(55))
        {
            ops.push_back(k);
        }
    }
    for (int k : {op_push_back, op_push_front, op_pop_back, op_pop_front, op_extend_back, op_queue_run})
    {
        if (r.chance(60))
        {
            ops.push_back(k);
        }
    }
    ops.push_back(r.chance(50) ? op_push_back : op_push_front);
    if (large)
    {
        ops.push_back(op_rot_left);
        ops.push_back(op_rot_right);
        ops.push_back(op_reverse);
        for (int k : {op_push_back, op_push_front, op_pop_back, op_pop_front})
        {
            ops.insert(ops.end(), 2, k);
        }
    }
    int len = large ? (int)r.range(4, 20) : (int)r.range(6, thorough ? 60 : 40);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = ops[r.below(ops.size())];
        for (auto& a : op.a)
        {
            a = (i64)r.below(large ? 1 << 22 : 1 << 16);
        }
        gf.apply(r, op);
        out.push_back(op);
    }
}

namespace sim
{
World world = {"deque", names, N_OPS, "digest of (operation, outcome, injected fault, resulting content) over a whole history",
               "pyincpp::Deque, pyincpp::Str and their standard-library containers", "allocator (operator new), element types",
               gen, do_reset, do_exec, do_finish, 3000000, 300000, 40000000};
}
