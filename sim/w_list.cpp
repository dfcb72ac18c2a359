// World: histories of List operations with failing allocations, element copies, comparisons and callbacks.
// PROP 5: all operations (C05). PROP 11: callback-centred histories (C11).
#include "elem.hpp"
#include <algorithm>
#include <memory>

using namespace sim;
using pyincpp::List;

#define OPS(X) \
    X(RESET) X(append) X(extend_list) X(insert) X(remove) X(remove_first) X(remove_all) X(repeat) X(rot_right) X(rot_left) X(reverse) X(uniquify) X(sort_default) X(sort_by) X(erase) X(map) X(filter) X(extend_range) X(clear) X(copy_assign) X(move_assign) X(swap) X(construct) X(write_index) X(read_index) X(search) X(slice) X(plus_elem) X(plus_list) X(minus_elem) X(times) X(div_elem) X(compare) X(iterate)
enum Code
{
#define X(n) op_##n,
    OPS(X)
#undef X
        N_OPS
};
static const char* const names[] = {
#define X(n) #n,
    OPS(X)
#undef X
};

// ---- callbacks: log of (element value, tag) seen, checked against the expected call sequence
struct CallLog
{
    std::vector<MV> seen;
};
static CallLog* cb_log = nullptr;
static int cmp_mode = 0;

template <class T>
static MV observe(const T& t)
{
    Out out;
    MV m{TR<T>::val(t), TR<T>::tag(t)};
    if (cb_log)
    {
        cb_log->seen.push_back(m);
    }
    return m;
}

static bool less_model(const MV& a, const MV& b)
{
    switch (cmp_mode)
    {
        case 0: return a.v < b.v;
        case 1: return a.v > b.v;
        case 2: return a.v % 3 < b.v % 3;
        case 3: return a.v / 4 > b.v / 4;
        default: return false; // everything equal
    }
}
template <class T>
static bool comparator(const T& a, const T& b)
{
    tick_callback(1);
    Out out;
    MV x{TR<T>::val(a), 0}, y{TR<T>::val(b), 0};
    if (x.v == MOVED || y.v == MOVED)
    {
        fail("callback-garbage", "comparator was given an element that had been moved away");
    }
    return less_model(x, y);
}
static bool pred_model(i64 mode, i64 v)
{
    switch (mode % 5)
    {
        case 0: return v % 2 == 0;
        case 1: return v > 5;
        case 2: return true;
        case 3: return false;
        default: return v % 3 != 0;
    }
}

struct ISeg
{
    virtual void exec(const Op&) = 0;
    virtual ~ISeg() {}
};

template <class T>
struct Seg : ISeg
{
    static const int N = 3;
    typedef TR<T> R;
    List<T> L[N];
    Model M[N];
    i64 next_tag = 1;
    i64 domain;
    int maxlen;

    Seg(const Op& r) : domain(r.a[1] < 1 ? 1 : r.a[1]), maxlen((int)(r.a[2] < 4 ? 4 : r.a[2]))
    {
        st.step_limit = r.a[3] ? world.step_limit * 400 : world.step_limit;
        // a large list to start with
        for (i64 k = 0; k < r.a[3]; ++k)
        {
            i64 v = (i64)(mix2((u64)r.a[4], k) % domain), t = next_tag++;
            L[0] += R::make(v, t);
            M[0].push_back({v, t});
        }
    }

    std::string where(int i, const List<T>& l, const Model& m) { return fmt("%s<%s> list %d is %s, expected %s (sizes %d, %zu)", names[cur_op->code], R::name, i, show_cont<List<T>, T>(l).c_str(), show_model(m, R::tagged).c_str(), l.size(), m.size()); }

    void verify(const char* when)
    {
        for (int i = 0; i < N; ++i)
        {
            if (!seq_equal<T>(L[i], M[i]))
            {
                fail(when, "%s: %s", when, where(i, L[i], M[i]).c_str());
            }
        }
        u64 h = 0;
        for (auto& e : M[0])
        {
            h = mix2(h, e.v);
        }
        note(h);
    }
    void expect_list(const List<T>& got, const Model& want, const char* what)
    {
        if (!seq_equal<T>(got, want))
        {
            fail("wrong-result", "%s: %s", what, where(-1, got, want).c_str());
        }
    }

    // every element must be one the list had or was given; then continue from what is there
    void resync(int i, const std::vector<MV>& given, size_t max_size)
    {
        if ((size_t)L[i].size() > max_size)
        {
            fail("failed-op-damage", "after a failed operation: list %d has %d elements, more than %zu", i, L[i].size(), max_size);
        }
        Model now;
        int n = 0;
        for (auto it = L[i].begin(); it != L[i].end(); ++it, ++n)
        {
            MV e{R::val(*it), R::tag(*it)};
            if (!R::moved(*it))
            {
                auto is = [&](const MV& m) { return m.v == e.v && (!R::tagged || m.tag == e.tag); };
                if (std::none_of(M[i].begin(), M[i].end(), is) && std::none_of(given.begin(), given.end(), is))
                {
                    fail("failed-op-damage", "after a failed %s: list %d holds an element (%lld) it never had", names[cur_op->code], i, (long long)e.v);
                }
            }
            now.push_back(e);
        }
        if (n != L[i].size())
        {
            fail("failed-op-damage", "after a failed operation: iteration finds %d elements, size() says %d", n, L[i].size());
        }
        // moved-away elements are replaced through the public interface
        for (int k = 0; k < n; ++k)
        {
            if (R::moved(L[i][k]))
            {
                now[k] = {0, 0};
                L[i][k] = R::make(0, 0);
            }
        }
        M[i] = now;
        verify("failed-op-damage");
    }
    Retry unchanged()
    {
        verify("failed-op-effect");
        return RETRY;
    }

    int norm(i64 raw, int n) { return n > 0 ? (int)((u64)raw % n) : 0; }

    void trim_if_long(int i)
    {
        if ((int)M[i].size() > maxlen)
        {
            L[i].clear();
            M[i].clear();
        }
    }

    void exec(const Op& op) override
    {
        int i = norm(op.a[0], N), j = norm(op.a[0] / N, N);
        List<T>& l = L[i];
        Model& m = M[i];
        int n = (int)m.size();
        i64 v = (i64)((u64)op.a[1] % domain);
        // the argument may be an element of the list itself
        bool alias = op.a[2] % 4 == 1 && n > 0;
        int ai = norm(op.a[1], n);
        i64 tag = next_tag++;
        MV me = alias ? m[ai] : MV{v, tag};
        T own = R::make(me.v, me.tag);
        const T& e = alias ? static_cast<const List<T>&>(l)[ai] : own;
        auto keep = [&](const Outcome&) { return unchanged(); };
        auto lenient = [&](std::vector<MV> given, size_t maxsz) {
            return [this, i, given, maxsz](const Outcome&) {
                resync(i, given, maxsz);
                return GIVE_UP;
            };
        };
        auto find_v = [](const Model& mm, i64 val) { return std::find_if(mm.begin(), mm.end(), [&](const MV& x) { return x.v == val; }); };
        auto bad_reject = [&](const Outcome& o, const char* w) {
            if (o.k == OK)
            {
                fail("accepted-invalid", "%s accepted an invalid request (%s)", names[op.code], w);
            }
            verify("rejected-op-effect");
        };

        switch (op.code)
        {
            case op_append: {
                Outcome o = run_op([&] { SELF(l, l += e); }, keep);
                if (o.ok())
                {
                    m.push_back(me);
                }
                break;
            }
            case op_extend_list: {
                // at most a prefix of the new elements may stay behind the old ones
                Model add = M[j];
                Model before = m;
                Outcome o = run_op([&] { SELF(l, l += L[j]); }, [&](const Outcome&) {
                    size_t k = l.size();
                    if (k < before.size() || k > before.size() + add.size())
                    {
                        fail("failed-op-effect", "failed extension left %zu elements, had %zu, adding %zu", k, before.size(), add.size());
                    }
                    Model want = before;
                    want.insert(want.end(), add.begin(), add.begin() + (k - before.size()));
                    m = want;
                    verify("failed-op-effect");
                    if (i == j && k != before.size())
                    {
                        return GIVE_UP;
                    }
                    before = m;
                    return k == before.size() ? RETRY : RETRY;
                });
                if (o.ok())
                {
                    m.insert(m.end(), add.begin(), add.end());
                }
                break;
            }
            case op_insert: {
                int idx = pick_index(op, n);
                bool okidx = idx >= -n && idx <= n;
                Outcome o;
                if (R::strong)
                {
                    o = run_op([&] { l.insert(idx, e); }, keep);
                }
                else
                {
                    o = run_op([&] { l.insert(idx, e); }, lenient({me}, n + 1));
                }
                if (!okidx)
                {
                    bad_reject(o, "index");
                }
                else if (o.ok())
                {
                    m.insert(m.begin() + (idx < 0 ? idx + n : idx), me);
                }
                else if (o.k == RTE)
                {
                    fail("refused-valid", "insert refused index %d of %d: %s", idx, n, o.what.c_str());
                }
                break;
            }
            case op_remove: {
                int idx = pick_index(op, n);
                bool okidx = idx >= -n && idx < n;
                MV got{0, 0};
                auto f = [&] {
                    T r = l.remove(idx);
                    Out out;
                    got = {R::val(r), R::tag(r)};
                };
                Outcome o = R::strong ? run_op(f, keep) : run_op(f, lenient({}, n));
                if (!okidx)
                {
                    bad_reject(o, "index");
                }
                else if (o.ok())
                {
                    int k = idx < 0 ? idx + n : idx;
                    if (got.v != m[k].v || (R::tagged && got.tag != m[k].tag))
                    {
                        fail("wrong-result", "remove(%d) returned %lld#%lld, expected %lld#%lld", idx, (long long)got.v, (long long)got.tag, (long long)m[k].v, (long long)m[k].tag);
                    }
                    m.erase(m.begin() + k);
                }
                else if (o.k == RTE)
                {
                    fail("refused-valid", "remove refused index %d of %d", idx, n);
                }
                break;
            }
            case op_remove_first: {
                auto f = [&] { SELF(l, l -= e); };
                Outcome o = R::strong ? run_op(f, keep) : run_op(f, lenient({}, n));
                if (o.ok())
                {
                    auto it = find_v(m, me.v);
                    if (it != m.end())
                    {
                        m.erase(it);
                    }
                }
                break;
            }
            case op_remove_all: {
                Outcome o = run_op([&] { SELF(l, l /= e); }, lenient({me}, n));
                if (o.ok())
                {
                    m.erase(std::remove_if(m.begin(), m.end(), [&](const MV& x) { return x.v == me.v; }), m.end());
                }
                break;
            }
            case op_repeat: {
                int t = norm(op.a[3], n < 3000 && op.a[4] % 8 == 0 ? 40 : 6) - 1;
                Outcome o = run_op([&] { SELF(l, l *= t); }, keep);
                if (t < 0)
                {
                    bad_reject(o, "times");
                }
                else if (o.ok())
                {
                    Model r;
                    for (int k = 0; k < t; ++k)
                    {
                        r.insert(r.end(), m.begin(), m.end());
                    }
                    m = r;
                }
                break;
            }
            case op_rot_right:
            case op_rot_left: {
                int k = pick_distance(op, n);
                auto f = [&] {
                    op.code == op_rot_right ? SELF(l, l >>= k) : SELF(l, l <<= k);
                };
                Outcome o = run_op(f, lenient({}, n));
                if (o.ok() && n > 1)
                {
                    i64 left = op.code == op_rot_left ? k : -(i64)k;
                    left = ((left % n) + n) % n;
                    std::rotate(m.begin(), m.begin() + left, m.end());
                }
                break;
            }
            case op_reverse: {
                Outcome o = run_op([&] { SELF(l, l.reverse()); }, lenient({}, n));
                if (o.ok())
                {
                    std::reverse(m.begin(), m.end());
                }
                break;
            }
            case op_uniquify: {
                Outcome o = run_op([&] { SELF(l, l.uniquify()); }, lenient({}, n));
                if (o.ok())
                {
                    Model r;
                    for (auto& x : m)
                    {
                        if (find_v(r, x.v) == r.end())
                        {
                            r.push_back(x);
                        }
                    }
                    m = r;
                }
                break;
            }
            case op_sort_default:
            case op_sort_by: {
                cmp_mode = op.code == op_sort_default ? 0 : norm(op.a[3], 5);
                Outcome o = run_op([&] { op.code == op_sort_default ? SELF(l, l.sort()) : SELF(l, l.sort(comparator<T>)); }, [&](const Outcome&) {
                    if (l.size() != n)
                    {
                        fail("failed-op-damage", "a failed sort turned %d elements into %d", n, l.size());
                    }
                    resync(i, {}, n);
                    return GIVE_UP;
                });
                if (o.ok())
                {
                    if (o.fired)
                    {
                        probe("sorted_without_scratch");
                    }
                    std::stable_sort(m.begin(), m.end(), less_model);
                }
                break;
            }
            case op_erase: {
                int a = norm(op.a[3], n + 4) - 1, b = norm(op.a[4], n + 4) - 1;
                bool oka = a >= 0 && a <= n && b >= 0 && b <= n;
                auto f = [&] { SELF(l, l.erase(a, b)); };
                Outcome o = R::strong ? run_op(f, keep) : run_op(f, lenient({}, n));
                if (!oka)
                {
                    bad_reject(o, "range");
                }
                else if (a <= b && o.k == RTE)
                {
                    fail("refused-valid", "erase(%d, %d) of a list of %d elements: %s", a, b, n, o.what.c_str());
                }
                else if (o.ok() && a <= b)
                {
                    m.erase(m.begin() + a, m.begin() + b);
                }
                // an inverted range has nothing to erase: refused or without effect
                break;
            }
            case op_map: {
                CallLog log;
                cb_log = &log;
                i64 d = norm(op.a[3], 5);
                i64 dom = domain;
                Model before = m;
                int calls = 0;
                auto act = [&calls, d, dom](T& t) {
                    tick_callback(2);
                    Out out;
                    ++calls;
                    MV o = observe<T>(t);
                    TR<T>::set(t, (o.v + d) % dom);
                };
                auto mapped = [&](size_t k) {
                    Model r = before;
                    for (size_t x = 0; x < k && x < r.size(); ++x)
                    {
                        r[x].v = (r[x].v + d) % dom;
                    }
                    return r;
                };
                Outcome o = run_op([&] { SELF(l, l.map(act)); }, [&](const Outcome& oo) {
                    // nothing after the failing call is touched
                    cb_log = nullptr;
                    if (seq_equal<T>(l, before))
                    {
                        m = before;
                    }
                    else if (oo.k == CB)
                    {
                        m = mapped(calls);
                        verify("failed-op-effect");
                    }
                    else
                    {
                        std::vector<MV> given = mapped(before.size());
                        resync(i, given, n);
                    }
                    return GIVE_UP;
                });
                cb_log = nullptr;
                if (o.ok())
                {
                    if (log.seen.size() != before.size())
                    {
                        fail("callback-calls", "map called its action %zu times for %zu elements", log.seen.size(), before.size());
                    }
                    check_log(log, before, "map");
                    m = mapped(before.size());
                }
                else if (o.k == CB && log.seen.size() > (size_t)op.fn - 1)
                {
                    fail("callback-calls", "map went on after its action had thrown");
                }
                break;
            }
            case op_filter: {
                CallLog log;
                cb_log = &log;
                i64 mode = op.a[3];
                Model before = m;
                bool threw = false, after = false;
                auto pred = [&](const T& t) {
                    after |= threw;
                    try
                    {
                        tick_callback(3);
                    }
                    catch (...)
                    {
                        threw = true;
                        throw;
                    }
                    MV o = observe<T>(t);
                    return pred_model(mode, o.v);
                };
                Outcome o = run_op([&] { SELF(l, l.filter(pred)); }, [&](const Outcome&) {
                    cb_log = nullptr;
                    if (after)
                    {
                        fail("callback-calls", "filter called its predicate again after it had thrown");
                    }
                    resync(i, {}, n);
                    return GIVE_UP;
                });
                cb_log = nullptr;
                if (o.ok())
                {
                    if (log.seen.size() != before.size())
                    {
                        fail("callback-calls", "filter called its predicate %zu times for %zu elements", log.seen.size(), before.size());
                    }
                    check_log(log, before, "filter");
                    m.erase(std::remove_if(m.begin(), m.end(), [&](const MV& x) { return !pred_model(mode, x.v); }), m.end());
                }
                break;
            }
            case op_extend_range: {
                int cnt = pick_count(op, 9);
                std::vector<T> src;
                Model add;
                for (int k = 0; k < cnt; ++k)
                {
                    i64 vv = (v + k * 5) % domain, tt = next_tag++;
                    src.push_back(R::make(vv, tt));
                    add.push_back({vv, tt});
                }
                Model before = m;
                auto f = [&] { l.extend(src.begin(), src.end()); };
                Outcome o = run_op(f, [&](const Outcome&) {
                    size_t k = l.size();
                    if (k < before.size() || k > before.size() + add.size())
                    {
                        fail("failed-op-effect", "failed extend left %zu elements, had %zu", k, before.size());
                    }
                    m = before;
                    m.insert(m.end(), add.begin(), add.begin() + (k - before.size()));
                    verify("failed-op-effect");
                    return GIVE_UP;
                });
                if (o.ok())
                {
                    m.insert(m.end(), add.begin(), add.end());
                }
                for (int k = 0; k < cnt; ++k)
                {
                    if (!same_elem(src[k], add[k]))
                    {
                        fail("operand-changed", "extend changed its source");
                    }
                }
                break;
            }
            case op_clear: {
                Outcome o = run_op([&] { l.clear(); }, keep);
                m.clear();
                break;
            }
            case op_copy_assign: {
                Model src = M[j];
                Outcome o = run_op([&] { l = static_cast<const List<T>&>(L[j]); }, [&](const Outcome&) {
                    if (i == j)
                    {
                        resync(i, {}, n);
                    }
                    else
                    {
                        resync(i, src, std::max(src.size(), m.size()));
                    }
                    return GIVE_UP;
                });
                if (o.ok())
                {
                    m = src;
                }
                break;
            }
            case op_move_assign: {
                if (i != j)
                {
                    Outcome o = run_op([&] { l = std::move(L[j]); }, keep);
                    if (o.ok())
                    {
                        m = M[j];
                        M[j].clear();
                    }
                }
                break;
            }
            case op_swap: {
                Outcome o = run_op([&] { using std::swap; swap(L[i], L[j]); }, keep);
                if (o.ok())
                {
                    std::swap(M[i], M[j]);
                }
                break;
            }
            case op_construct: {
                std::vector<T> src;
                Model add;
                int cnt = norm(op.a[3], 6);
                for (int k = 0; k < cnt; ++k)
                {
                    i64 vv = (v + k * 7) % domain, tt = next_tag++;
                    src.push_back(R::make(vv, tt));
                    add.push_back({vv, tt});
                }
                std::unique_ptr<List<T>> fresh;
                auto f = [&] {
                    switch (norm(op.a[4], 4))
                    {
                        case 0: fresh.reset(new List<T>(src)); break;
                        case 1: fresh.reset(new List<T>(src.begin(), src.end())); break;
                        case 2: fresh.reset(new List<T>(l)); break;
                        default: fresh.reset(new List<T>{e, e, own}); break;
                    }
                };
                Outcome o = run_op(f, keep);
                if (o.ok())
                {
                    int mode = norm(op.a[4], 4);
                    Model want = mode < 2 ? add : mode == 2 ? m : Model{me, me, me};
                    expect_list(*fresh, want, "constructor");
                    verify("operand-changed");
                    L[j] = std::move(*fresh);
                    M[j] = want;
                }
                break;
            }
            case op_write_index: {
                int idx = pick_index(op, n);
                bool okidx = idx >= -n && idx < n;
                auto f = [&] { l[idx] = own; };
                Outcome o = run_op(f, keep);
                if (!okidx)
                {
                    bad_reject(o, "index");
                }
                else if (o.ok())
                {
                    m[idx < 0 ? idx + n : idx] = me;
                }
                else if (o.k == RTE)
                {
                    fail("refused-valid", "[] refused index %d of %d", idx, n);
                }
                break;
            }
            case op_read_index: {
                for (int idx = -n - 1; idx <= n; ++idx)
                {
                    bool okidx = idx >= -n && idx < n;
                    MV got{0, 0}, got2{0, 0};
                    Outcome o = run_op([&] {
                        const T& a = static_cast<const List<T>&>(l)[idx];
                        T& b = l[idx];
                        Out out;
                        got = {R::val(a), R::tag(a)};
                        got2 = {R::val(b), R::tag(b)}; }, keep);
                    if (o.ok() != okidx)
                    {
                        fail(okidx ? "refused-valid" : "accepted-invalid", "[] with index %d of %d", idx, n);
                    }
                    if (okidx)
                    {
                        MV w = m[idx < 0 ? idx + n : idx];
                        if (got.v != w.v || got2.v != w.v || (R::tagged && (got.tag != w.tag || got2.tag != w.tag)))
                        {
                            fail("wrong-result", "[%d] is %lld, expected %lld", idx, (long long)got.v, (long long)w.v);
                        }
                    }
                }
                break;
            }
            case op_search: {
                int start = norm(op.a[3], n + 2), stop = norm(op.a[4], n + 4);
                bool ranged = op.a[5] % 3 != 0;
                start = std::min(start, n);
                int ix = -9, cn = -9, fi = -9, has = -9, has2 = -9;
                Outcome o = run_op([&] {
                    const List<T>& c = l;
                    ix = ranged ? c.index(e, start, stop) : op.a[5] % 2 ? c.index(e) : c.index(e, start);
                    cn = c.count(e);
                    auto it = c.find(e);
                    fi = it == c.end() ? -1 : (int)(it - c.begin());
                    has = c.contains(e);
                    has2 = c.contains(e, start, stop);
                }, keep);
                if (o.ok())
                {
                    auto ref = [&](int a, int b) {
                        for (int k = a; k < b && k < n; ++k)
                        {
                            if (m[k].v == me.v)
                            {
                                return k;
                            }
                        }
                        return -1;
                    };
                    int wix = ranged ? ref(start, stop) : op.a[5] % 2 ? ref(0, n) : ref(start, n);
                    int wcn = (int)std::count_if(m.begin(), m.end(), [&](const MV& x) { return x.v == me.v; });
                    if (ix != wix || cn != wcn || fi != ref(0, n) || has != (ref(0, n) != -1) || has2 != (ref(start, stop) != -1))
                    {
                        fail("wrong-result", "search for %lld in %s [%d,%d): index %d (expected %d) count %d (%d) find %d contains %d/%d", (long long)me.v, show_model(m, R::tagged).c_str(), start, stop, ix, wix, cn, wcn, fi, has, has2);
                    }
                }
                else if (o.k == RTE && start <= stop)
                {
                    fail("refused-valid", "search refused");
                }
                break;
            }
            case op_slice: {
                int a = norm(op.a[3], 2 * n + 3) - n - 1, b = norm(op.a[4], 2 * n + 5) - n - 2;
                static const int steps[] = {1, 1, 2, 3, -1, -1, -2, 7, -7, INT_MAX, INT_MIN, 0};
                int s = steps[norm(op.a[5], 12)];
                bool valid = s != 0 && a >= -n && a < n && b >= -n - 1 && b <= n;
                std::unique_ptr<List<T>> r;
                Outcome o = run_op([&] { r.reset(new List<T>(static_cast<const List<T>&>(l).slice(a, b, s))); }, keep);
                if (!valid)
                {
                    bad_reject(o, "slice");
                }
                else if (o.k == RTE)
                {
                    fail("refused-valid", "slice(%d,%d,%d) of %d refused", a, b, s, n);
                }
                else
                {
                    Model want;
                    i64 aa = a < 0 ? a + n : a, bb = b < 0 ? b + n : b;
                    for (i64 k = aa; s > 0 ? k < bb : k > bb; k += s)
                    {
                        want.push_back(m[k]);
                    }
                    expect_list(*r, want, "slice");
                }
                break;
            }
            case op_plus_elem:
            case op_plus_list:
            case op_minus_elem:
            case op_times:
            case op_div_elem: {
                std::unique_ptr<List<T>> r;
                int t = norm(op.a[3], 5) - 1;
                Outcome o = run_op([&] {
                    const List<T>& c = l;
                    switch (op.code)
                    {
                        case op_plus_elem: r.reset(new List<T>(c + e)); break;
                        case op_plus_list: r.reset(new List<T>(c + L[j])); break;
                        case op_minus_elem: r.reset(new List<T>(c - e)); break;
                        case op_times: r.reset(new List<T>(c * t)); break;
                        default: r.reset(new List<T>(c / e)); break;
                    }
                },
                                   keep);
                if (op.code == op_times && t < 0)
                {
                    bad_reject(o, "times");
                }
                else if (o.ok())
                {
                    Model want = m;
                    if (op.code == op_plus_elem)
                    {
                        want.push_back(me);
                    }
                    else if (op.code == op_plus_list)
                    {
                        want.insert(want.end(), M[j].begin(), M[j].end());
                    }
                    else if (op.code == op_minus_elem)
                    {
                        auto it = find_v(want, me.v);
                        if (it != want.end())
                        {
                            want.erase(it);
                        }
                    }
                    else if (op.code == op_times)
                    {
                        want.clear();
                        for (int k = 0; k < t; ++k)
                        {
                            want.insert(want.end(), m.begin(), m.end());
                        }
                    }
                    else
                    {
                        want.erase(std::remove_if(want.begin(), want.end(), [&](const MV& x) { return x.v == me.v; }), want.end());
                    }
                    expect_list(*r, want, names[op.code]);
                    verify("operand-changed");
                }
                break;
            }
            case op_compare: {
                bool eq = false, ne = false, lt = false, ge = false, gt = false, le = false;
                Outcome o = run_op([&] {
                    const List<T>&a = L[i], &b = L[j];
                    eq = a == b;
                    ne = a != b;
                    lt = a < b;
                    ge = a >= b;
                    gt = a > b;
                    le = a <= b;
                },
                                   keep);
                if (o.ok())
                {
                    int c = 0;
                    size_t k = 0;
                    for (; k < M[i].size() && k < M[j].size() && !c; ++k)
                    {
                        c = M[i][k].v < M[j][k].v ? -1 : M[i][k].v > M[j][k].v;
                    }
                    if (!c)
                    {
                        c = M[i].size() < M[j].size() ? -1 : M[i].size() > M[j].size();
                    }
                    if (eq != (c == 0) || ne != (c != 0) || lt != (c < 0) || ge != (c >= 0) || gt != (c > 0) || le != (c <= 0))
                    {
                        fail("wrong-result", "comparison of %s and %s", show_model(M[i], false).c_str(), show_model(M[j], false).c_str());
                    }
                }
                break;
            }
            case op_iterate: {
                std::vector<i64> fw, bw;
                Outcome o = run_op([&] {
                    for (auto it = l.begin(); it != l.end(); ++it)
                    {
                        Out out;
                        fw.push_back(R::val(*it));
                    }
                    for (auto it = l.rbegin(); it != l.rend(); ++it)
                    {
                        Out out;
                        bw.push_back(R::val(*it));
                    }
                },
                                   keep);
                bool good = (int)fw.size() == n && (int)bw.size() == n;
                for (int k = 0; good && k < n; ++k)
                {
                    good = fw[k] == m[k].v && bw[k] == m[n - 1 - k].v;
                }
                if (!good)
                {
                    fail("wrong-result", "iteration does not visit the elements in order");
                }
                break;
            }
        }
        verify("content");
        if (!alias && !same_elem(own, me))
        {
            fail("operand-changed", "%s changed its argument", names[op.code]);
        }
        trim_if_long(i);
    }
    void check_log(const CallLog& log, const Model& before, const char* what)
    {
        for (size_t k = 0; k < before.size(); ++k)
        {
            if (log.seen[k].v != before[k].v || (R::tagged && log.seen[k].tag != before[k].tag))
            {
                fail("callback-calls", "%s call %zu was given %lld, expected element %lld", what, k, (long long)log.seen[k].v, (long long)before[k].v);
            }
        }
    }
};

static std::unique_ptr<ISeg> seg;

static void do_reset(const Op& op)
{
    seg.reset();
    switch ((u64)op.a[0] % 6)
    {
        case 0: seg.reset(new Seg<Elem>(op)); break;
        case 1: seg.reset(new Seg<int>(op)); break;
        case 2: seg.reset(new Seg<pyincpp::Str>(op)); break;
        case 3: seg.reset(new Seg<CElem>(op)); break;
#if PROP == 5
        case 4: seg.reset(new Seg<std::string>(op)); break;
#endif
        default: seg.reset(new Seg<Elem>(op)); break;
    }
}
static void do_exec(const Op& op)
{
    if (seg)
    {
        seg->exec(op);
    }
}
static void do_finish() { seg.reset(); }

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    reset.a[0] = (i64)r.below(6);
    reset.a[1] = r.chance(70) ? r.range(3, 12) : r.range(20, 60);
    reset.a[2] = r.chance(80) ? 40 : 300;
    out.push_back(reset);
    GenFaults gf;
    static const int all[] = {F_ALLOC, F_ALLOC_STICKY, F_ALLOC_SWEEP, F_NOTHROW, F_COPY, F_COMPARE, F_CALLBACK};
    if (r.chance(80))
    {
        gf.rate = (int)r.range(10, 60);
        for (int k : all)
        {
            if (r.chance(60))
            {
                gf.kinds.push_back(k);
            }
        }
        gf.maxbits = (int)r.range(1, 6);
    }
    const Start start = start_size(r, gf, PROP == 11 ? 9000 : 150000);
    const bool large = start.n > 300;
    if (start.n)
    {
        reset.a[0] = start.cheap ? 1 : reset.a[0];
        reset.a[1] = r.chance(50) ? r.range(3, 20) : r.chance(50) ? 200 : 1500;
        reset.a[2] = start.n * 2 + 100;
        reset.a[3] = start.n;
        reset.a[4] = (i64)r.below(1 << 20);
        out[0] = reset;
        probe(large ? "large_container" : "medium_container");
    }
    std::vector<int> ops;
#if PROP == 11
    static const int base[] = {op_append, op_extend_range, op_insert, op_reverse, op_copy_assign, op_repeat};
    static const int main_ops[] = {op_map, op_filter, op_sort_by, op_sort_default};
    for (int k : base)
    {
        if (r.chance(60))
        {
            ops.push_back(k);
        }
    }
    ops.push_back(op_extend_range);
    for (int k : main_ops)
    {
        if (r.chance(75))
        {
            for (int q = 0; q < 3; ++q)
            {
                ops.push_back(k);
            }
        }
    }
#else
    for (int k = 1; k < N_OPS; ++k)
    {
        if (r.chance(55))
        {
            ops.push_back(k);
        }
    }
    ops.push_back(op_append);
    ops.push_back(op_append);
    ops.push_back(op_extend_range);
    if (large)
    {
        for (int k : {op_rot_left, op_rot_right, op_search, op_search, op_slice, op_insert, op_remove})
        {
            ops.push_back(k);
        }
    }
#endif
    int len = large ? (int)r.range(4, 20) : (int)r.range(6, thorough ? 60 : 40);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = ops[r.below(ops.size())];
        for (auto& a : op.a)
        {
            a = (i64)r.below(large ? 1 << 22 : 1 << 16);
        }
        gf.apply(r, op);
#if PROP == 11
        if ((op.code == op_map || op.code == op_filter || op.code == op_sort_by) && r.chance(30))
        {
            op.fk = r.chance(75) ? F_CALLBACK : F_NOTHROW;
            op.fn = r.logu(5);
        }
#endif
        out.push_back(op);
    }
}

namespace sim
{
World world = {"list", names, N_OPS, "digest of (operation, outcome, injected fault, resulting content) over a whole history",
               "pyincpp::List, pyincpp::Str and their standard-library containers", "allocator (operator new), element types, user callbacks",
               gen, do_reset, do_exec, do_finish, 3000000, 300000, 40000000};
}
