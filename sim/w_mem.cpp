// World: growth against a simulated heap limit and the maximum container size (C20).
#include "elem.hpp"
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <boost/multiprecision/cpp_int.hpp>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <sstream>

using namespace sim;
using namespace pyincpp;
typedef boost::multiprecision::cpp_int Ref;
typedef std::string S;

#define OPS(X) \
    X(RESET) X(str_mul) X(str_add) X(str_replace) X(str_join) X(str_format) X(list_mul) X(list_imul) X(elem_imul) X(list_append_list) X(list_plus) X(list_extend) X(list_insert) X(list_push) X(list_map_grow) X(deque_push) X(deque_extend) X(set_add) X(set_extend) X(dict_add) X(dict_extend) X(set_union) \
    X(int_add) X(int_sub) X(int_mul) X(int_pow) X(int_parse) X(int_shift) X(shrink) X(over) X(giant)
enum Code
{
#define X(n) op_##n,
    OPS(X)
#undef X
        N_OPS
};
static const char* const names[] = {
#define X(n) #n,
    OPS(X)
#undef X
};

static S hexd(const S& s) { return s.size() > 60 ? show(s.substr(0, 60)) + fmt("... (%zu)", s.size()) : show(s); }

// at most three processes hold giant objects at a time
struct Turn
{
    static int fd;
    Turn() { lock(F_WRLCK); }
    ~Turn() { lock(F_UNLCK); }
    void lock(short type)
    {
        struct flock l = {};
        l.l_type = type;
        l.l_whence = SEEK_SET;
        l.l_start = getpid() % 3;
        l.l_len = 1;
        while (fcntl(fd, F_SETLKW, &l) < 0 && errno == EINTR) {}
    }
};
int Turn::fd = memfd_create("turn", 0);

struct Seg
{
    Str t;
    S mt;
    List<int> l;
    std::vector<int> ml;
    List<Elem> e;
    Model me;
    Deque<int> d;
    std::deque<int> md;
    Set<int> s;
    std::set<int> ms;
    Dict<int, int> m;
    std::map<int, int> mm;
    Int x;
    Ref mx;
    int next = 0;

    template <class C, class M>
    static bool same(const C& c, const M& model)
    {
        if (c.size() != (int)model.size() || c.is_empty() != model.empty())
        {
            return false;
        }
        auto k = model.begin();
        for (auto it = c.begin(); it != c.end(); ++it, ++k)
        {
            if (k == model.end() || !(*it == *k))
            {
                return false;
            }
        }
        return k == model.end();
    }
    void verify(const char* cls)
    {
        must("inspection", [&] {
            Out out;
            if (t.size() != (int)mt.size() || memcmp(t.data(), mt.data(), mt.size()) || t.data()[mt.size()])
            {
                fail(cls, "%s: the Str has %d characters %s, expected %zu", names[cur_op->code], t.size(), hexd(S(t.data(), std::max(0, std::min(t.size(), 60)))).c_str(), mt.size());
            }
            if (!same(l, ml))
            {
                fail(cls, "%s: the List<int> has %d elements, expected %zu or other ones", names[cur_op->code], l.size(), ml.size());
            }
            if (!seq_equal<Elem>(e, me))
            {
                fail(cls, "%s: the List<Elem> is %s, expected %s", names[cur_op->code], show_cont<List<Elem>, Elem>(e).c_str(), show_model(me, true).c_str());
            }
            if (!same(d, md))
            {
                fail(cls, "%s: the Deque has %d elements, expected %zu or other ones", names[cur_op->code], d.size(), md.size());
            }
            if (!same(s, ms))
            {
                fail(cls, "%s: the Set has %d elements, expected %zu or other ones", names[cur_op->code], s.size(), ms.size());
            }
            if (!same(m, mm))
            {
                fail(cls, "%s: the Dict has %d items, expected %zu or other ones", names[cur_op->code], m.size(), mm.size());
            }
            std::ostringstream o;
            o << x;
            if (o.str() != mx.str())
            {
                fail(cls, "%s: the Int is %s, expected %s", names[cur_op->code], hexd(o.str()).c_str(), hexd(mx.str()).c_str());
            } });
    }
    // runs f under the heap limit of the op; needed: elements or bytes of the result, limit: largest legal result.
    // true: done
    template <class F>
    bool grow(i64 needed, F f)
    {
        return run(needed, &f, [](void* p) { (*(F*)p)(); });
    }
    bool run(i64 needed, void* object, void (*call)(void*))
    {
        const Op& op = *cur_op;
        // never without a limit: a script whose faults were removed has a large but finite heap
        arm(op.fk, op.fn);
        st.cap = std::min(st.cap, st.live_bytes + (4096 << 10));
        Outcome o = sut_armed([&] { call(object); });
        bool fired = st.fired;
        disarm();
        st.faults_in_segment += fired;
        note(mix2(o.k, fired));
        if (o.k == OK)
        {
            if (needed > INT_MAX)
            {
                fail("not-refused", "%s to %lld elements was accepted", names[op.code], (long long)needed);
            }
            return true;
        }
        if (o.k == BADALLOC ? !fired : (o.k != RTE && o.k != LENGTH) || needed < INT_MAX)
        {
            fail("refused-valid", "%s to %lld elements failed: %s %s", names[op.code], (long long)needed, kind_names[o.k], o.what.c_str());
        }
        probe(o.k == BADALLOC ? "refused_no_memory" : "refused_max_size");
        return false;
    }
    static i64 times_for(Rng& r, i64 n)
    {
        switch (r.below(9))
        {
            case 0: return INT_MAX;
            case 1: return INT_MAX - (i64)r.below(3);
            case 2: return std::min<i64>(INT_MAX, INT_MAX / n + r.range(-1, 2));
            case 3: return std::min<i64>(INT_MAX, (1ll << 32) / n + r.range(-1, 2));
            case 4: return std::min<i64>(INT_MAX, ((1ll << 33) + (1ll << 32)) / n + r.range(-1, 2));
            case 5: return std::min<i64>(INT_MAX, r.logu(31));
            default: return r.range(0, 2000 / n + 3);
        }
    }

    void exec(const Op& op)
    {
        Rng r(mix2(op.a[0], op.a[1]));
        switch (op.code)
        {
            case op_str_mul: {
                if (mt.empty())
                {
                    t = "ab";
                    mt = "ab";
                }
                i64 n = (i64)mt.size(), times = times_for(r, n);
                Str got;
                if (grow(n * times, [&] { got = t * (int)times; }))
                {
                    if (got.size() != n * times)
                    {
                        fail("wrong-size", "a Str of %lld characters times %lld has %d characters", (long long)n, (long long)times, got.size());
                    }
                    S want;
                    for (i64 i = 0; i < times; ++i)
                    {
                        want += mt;
                    }
                    if (got.size() != (int)want.size() || S(got.data(), got.size()) != want)
                    {
                        fail("wrong-size", "a Str of %lld characters times %lld has %d characters, expected %zu", (long long)n, (long long)times, got.size(), want.size());
                    }
                    if (want.size() <= 3000)
                    {
                        t = std::move(got);
                        mt = want;
                    }
                }
                break;
            }
            case op_str_add: {
                S add((size_t)r.below(3) ? r.below(40) : r.below(4000), (char)('a' + r.below(26)));
                Str y(add);
                bool self = r.chance(20);
                Str got;
                if (grow((i64)mt.size() + (i64)(self ? mt.size() : add.size()), [&] { got = self ? t + t : t + y; }))
                {
                    t = std::move(got);
                    mt += self ? S(mt) : add;
                }
                break;
            }
            case op_str_replace: {
                S by(r.below(200), 'R');
                S pat = mt.empty() || r.chance(30) ? S() : mt.substr(0, 1);
                S want;
                if (pat.empty())
                {
                    want = by;
                    for (char c : mt)
                    {
                        want += c;
                        want += by;
                    }
                }
                else
                {
                    for (char c : mt)
                    {
                        want += c == pat[0] ? by : S(1, c);
                    }
                }
                Str got, p(pat), b(by);
                if (grow((i64)want.size(), [&] { got = t.replace(p, b); }) && S(got.data(), got.size()) != want)
                {
                    fail("wrong-size", "replace gives %d characters, expected %zu", got.size(), want.size());
                }
                break;
            }
            case op_str_join: {
                List<Str> parts;
                S want;
                int n = (int)r.below(40);
                for (int i = 0; i < n; ++i)
                {
                    S p(r.below(20), (char)('A' + i % 26));
                    parts += Str(p);
                    want += (i ? mt : S()) + p;
                }
                if (want.size() > 60000)
                {
                    break;
                }
                Str got;
                if (grow((i64)want.size(), [&] { got = t.join(parts); }) && S(got.data(), got.size()) != want)
                {
                    fail("wrong-size", "join gives %d characters, expected %zu", got.size(), want.size());
                }
                break;
            }
            case op_str_format: {
                S a(r.below(9000), 'f');
                Str f("[{}|{}]"), got;
                S want = "[" + a + "|" + "\"" + mt + "\"]";
                if (grow((i64)want.size(), [&] { got = f.format(a, t); }) && S(got.data(), got.size()) != want)
                {
                    fail("wrong-size", "format gives %d characters, expected %zu", got.size(), want.size());
                }
                break;
            }
            case op_list_mul:
            case op_list_imul: {
                if (ml.empty())
                {
                    l += 7;
                    ml.push_back(7);
                }
                i64 n = (i64)ml.size(), times = times_for(r, n);
                List<int> got;
                bool in = op.code == op_list_imul;
                if (grow(n * times, [&] {
                        if (in)
                        {
                            l *= (int)times;
                        }
                        else
                        {
                            got = l * (int)times;
                        } }))
                {
                    if ((in ? l : got).size() != n * times)
                    {
                        fail("wrong-size", "a List of %lld elements times %lld has %d elements", (long long)n, (long long)times, (in ? l : got).size());
                    }
                    std::vector<int> want;
                    for (i64 i = 0; i < times; ++i)
                    {
                        want.insert(want.end(), ml.begin(), ml.end());
                    }
                    if (!same(in ? l : got, want))
                    {
                        fail("wrong-size", "a List of %lld elements times %lld has %d elements, expected %zu", (long long)n, (long long)times, (in ? l : got).size(), want.size());
                    }
                    if (in || want.size() < 2000)
                    {
                        ml = want;
                        if (!in)
                        {
                            l = std::move(got);
                        }
                    }
                }
                break;
            }
            case op_elem_imul: {
                if (me.empty())
                {
                    i64 v = ++next;
                    e += Elem(v, v);
                    me.push_back(MV{v, v});
                }
                i64 n = (i64)me.size(), times = r.chance(50) ? r.range(0, 4) : times_for(r, n);
                if (times * n < INT_MAX && times * n > 300)
                {
                    times = r.range(0, 4);
                }
                if (grow(n * times, [&] { e *= (int)times; }))
                {
                    if (e.size() != n * times)
                    {
                        fail("wrong-size", "a List of %lld elements times %lld has %d elements", (long long)n, (long long)times, e.size());
                    }
                    Model want;
                    for (i64 i = 0; i < times; ++i)
                    {
                        want.insert(want.end(), me.begin(), me.end());
                    }
                    me = want;
                }
                break;
            }
            case op_list_append_list: {
                std::vector<int> add(r.below(3) ? r.below(20) : r.below(3000));
                for (int& v : add)
                {
                    v = ++next;
                }
                bool self = r.chance(25);
                List<int> y(add);
                if (grow((i64)ml.size() + (i64)(self ? ml.size() : add.size()), [&] { l += self ? l : y; }))
                {
                    add = self ? ml : add;
                    ml.insert(ml.end(), add.begin(), add.end());
                }
                break;
            }
            case op_list_plus: {
                List<int> got;
                if (grow((i64)ml.size() * 2, [&] { got = l + l; }))
                {
                    std::vector<int> want(ml);
                    want.insert(want.end(), ml.begin(), ml.end());
                    if (!same(got, want))
                    {
                        fail("wrong-size", "List + List has %d elements, expected %zu", got.size(), want.size());
                    }
                }
                break;
            }
            case op_list_extend: {
                std::vector<int> add(r.below(3) ? r.below(20) : r.below(3000));
                for (int& v : add)
                {
                    v = ++next;
                }
                if (grow((i64)(ml.size() + add.size()), [&] { l.extend(add.begin(), add.end()); }))
                {
                    ml.insert(ml.end(), add.begin(), add.end());
                }
                break;
            }
            case op_list_insert: {
                int v = ++next, at = (int)r.below(ml.size() + 1);
                if (grow((i64)ml.size() + 1, [&] { l.insert(at, v); }))
                {
                    ml.insert(ml.begin() + at, v);
                }
                break;
            }
            case op_list_push: {
                int n = (int)r.below(200);
                for (int i = 0; i < n; ++i)
                {
                    int v = ++next;
                    if (!grow((i64)ml.size() + 1, [&] { l += v; }))
                    {
                        break;
                    }
                    ml.push_back(v);
                }
                break;
            }
            case op_list_map_grow: {
                int n = (int)r.below(40);
                for (int i = 0; i < n && me.size() < 300; ++i)
                {
                    i64 v = ++next;
                    Elem y(v, v);
                    int at = (int)r.below(me.size() + 1);
                    if (!grow((i64)me.size() + 1, [&] { e.insert(at, y); }))
                    {
                        break;
                    }
                    me.insert(me.begin() + at, MV{v, v});
                }
                break;
            }
            case op_deque_push: {
                int n = (int)r.below(400);
                bool back = r.chance(50);
                for (int i = 0; i < n; ++i)
                {
                    int v = ++next;
                    if (!grow((i64)md.size() + 1, [&] {
                            if (back)
                            {
                                d.push_back(v);
                            }
                            else
                            {
                                d.push_front(v);
                            } }))
                    {
                        break;
                    }
                    if (back)
                    {
                        md.push_back(v);
                    }
                    else
                    {
                        md.push_front(v);
                    }
                }
                break;
            }
            case op_deque_extend: {
                std::vector<int> add(r.below(3) ? r.below(60) : r.below(3000));
                for (int& v : add)
                {
                    v = ++next;
                }
                bool back = r.chance(50);
                auto want = md;
                want.insert(back ? want.end() : want.begin(), add.begin(), add.end());
                if (grow((i64)want.size(), [&] {
                        if (back)
                        {
                            d.extend_back(add.begin(), add.end());
                        }
                        else
                        {
                            d.extend_front(add.begin(), add.end());
                        } }))
                {
                    md = want;
                }
                else
                {
                    // what was there stays, in order; anything added was delivered by the source
                    size_t extra = (size_t)d.size() - md.size();
                    bool ok = d.size() >= (int)md.size() && extra <= add.size();
                    for (size_t i = 0; ok && i < md.size(); ++i)
                    {
                        ok = d[(int)(i + (back ? 0 : extra))] == md[i];
                    }
                    std::set<int> pool(add.begin(), add.end());
                    for (size_t i = 0; ok && i < extra; ++i)
                    {
                        ok = pool.count(d[(int)(i + (back ? md.size() : 0))]);
                    }
                    if (!ok)
                    {
                        fail("failed-op-effect", "a refused extension of a Deque of %zu elements by %zu leaves %d", md.size(), add.size(), d.size());
                    }
                    md.assign(d.begin(), d.end());
                }
                break;
            }
            case op_set_add: {
                int n = (int)r.below(300);
                for (int i = 0; i < n; ++i)
                {
                    int v = (int)r.below(4000);
                    bool isnew = false;
                    if (!grow((i64)ms.size() + 1, [&] { isnew = s.add(v); }))
                    {
                        break;
                    }
                    if (isnew != ms.insert(v).second)
                    {
                        fail("wrong-result", "Set.add returned %d", isnew);
                    }
                }
                break;
            }
            case op_dict_add: {
                int n = (int)r.below(300);
                for (int i = 0; i < n; ++i)
                {
                    int k = (int)r.below(4000), v = ++next;
                    bool isnew = false;
                    if (!grow((i64)mm.size() + 1, [&] { isnew = m.add(k, v); }))
                    {
                        break;
                    }
                    if (isnew != mm.emplace(k, v).second)
                    {
                        fail("wrong-result", "Dict.add returned %d", isnew);
                    }
                }
                break;
            }
            case op_set_extend:
            case op_set_union: {
                std::vector<int> add(r.below(600));
                for (int& v : add)
                {
                    v = (int)r.below(6000);
                }
                Set<int> y(add.begin(), add.end());
                bool uni = op.code == op_set_union;
                std::set<int> want = ms;
                want.insert(add.begin(), add.end());
                if (grow((i64)want.size(), [&] {
                        if (uni)
                        {
                            s |= y;
                        }
                        else
                        {
                            s.extend(add.begin(), add.end());
                        } }))
                {
                    ms = want;
                }
                else
                {
                    std::set<int> now(s.begin(), s.end());
                    if (!std::includes(now.begin(), now.end(), ms.begin(), ms.end()) || !std::includes(want.begin(), want.end(), now.begin(), now.end()) || (int)now.size() != s.size())
                    {
                        fail("failed-op-effect", "a refused extension of a Set of %zu elements leaves %d", ms.size(), s.size());
                    }
                    ms = now;
                }
                break;
            }
            case op_dict_extend: {
                std::vector<std::pair<int, int>> add(r.below(500));
                for (auto& v : add)
                {
                    v = {(int)r.below(6000), ++next};
                }
                std::map<int, int> want = mm;
                want.insert(add.begin(), add.end());
                if (grow((i64)want.size(), [&] { m.extend(add.begin(), add.end()); }))
                {
                    mm = want;
                }
                else
                {
                    std::map<int, int> now(m.begin(), m.end());
                    if (!std::includes(now.begin(), now.end(), mm.begin(), mm.end()) || !std::includes(want.begin(), want.end(), now.begin(), now.end()))
                    {
                        fail("failed-op-effect", "a refused extension of a Dict of %zu items leaves %d", mm.size(), m.size());
                    }
                    mm = now;
                }
                break;
            }
            case op_int_add:
            case op_int_sub:
            case op_int_mul: {
                Ref v = 0;
                S digits(1, (char)('1' + r.below(9)));
                int n = op.code == op_int_mul ? (int)r.below(120) : r.chance(70) ? (int)r.below(60) : (int)r.below(2500);
                while ((int)digits.size() < n)
                {
                    digits += r.chance(50) ? '9' : (char)('0' + r.below(10));
                }
                if (r.chance(40))
                {
                    digits = "-" + digits;
                }
                v = Ref(digits);
                Int y(digits.c_str());
                int kind = op.code;
                Ref want = kind == op_int_add ? Ref(mx + v) : kind == op_int_sub ? Ref(mx - v) : Ref(mx * v);
                if (grow(1, [&] {
                        switch (kind)
                        {
                            case op_int_add: x += y; break;
                            case op_int_sub: x -= y; break;
                            default: x *= y; break;
                        } }))
                {
                    mx = want;
                }
                break;
            }
            case op_int_pow: {
                int base = (int)r.range(2, 99), ex = (int)r.below(160);
                Ref want = boost::multiprecision::pow(Ref(base), ex);
                Int got;
                if (grow(1, [&] { got = Int::pow(base, ex); }))
                {
                    std::ostringstream o;
                    o << got;
                    if (o.str() != want.str())
                    {
                        fail("wrong-result", "%d ** %d is %s", base, ex, hexd(o.str()).c_str());
                    }
                }
                break;
            }
            case op_int_parse: {
                S digits(1 + r.below(6000), (char)('1' + r.below(9)));
                if (grow(1, [&] { x = Int(digits.c_str()); }))
                {
                    mx = Ref(digits);
                }
                break;
            }
            case op_int_shift: {
                int n = (int)r.below(20);
                for (int i = 0; i < n; ++i)
                {
                    bool up = r.chance(70);
                    if (!grow(1, [&] {
                            if (up)
                            {
                                x = x * 10 + 9;
                            }
                            else
                            {
                                ++x;
                            } }))
                    {
                        break;
                    }
                    mx = up ? Ref(mx * 10 + 9) : Ref(mx + 1);
                }
                break;
            }
            case op_over: {
                over(op, r);
                break;
            }
            case op_giant: {
                giant(op, r);
                break;
            }
            case op_shrink: break;
        }
        verify(st.faults_in_segment ? "failed-op-effect" : "content");
        // objects stay testable
        if (mt.size() > 5000)
        {
            t = Str("start");
            mt = "start";
        }
        if (ml.size() > 5000)
        {
            l.clear();
            ml.clear();
        }
        if (me.size() > 300)
        {
            e.clear();
            me.clear();
        }
        if (md.size() > 6000)
        {
            d.clear();
            md.clear();
        }
        if (mx > (Ref(1) << 12000) || mx < -(Ref(1) << 12000))
        {
            x = 5;
            mx = 5;
        }
        note(mt.size() + ml.size() * 3 + md.size() * 5 + ms.size() * 7 + mm.size() * 11);
    }

    // results just beyond what an int can count, with memory enough for a result that was cut short to be made
    void over(const Op& op, Rng& r)
    {
        i64 n = r.range(1, 40), k = (u64)op.a[2] % 3;
        i64 times = k == 0 ? INT_MAX / n + 1 + (i64)r.below(3) : k == 1 ? (1ll << 32) / n + r.range(0, 2) : r.range(INT_MAX / n + 1, INT_MAX);
        times = std::min<i64>(times, INT_MAX);
        if (n * times <= INT_MAX)
        {
            n = 2 + n % 5;
            times = INT_MAX - (i64)r.below(3);
        }
        disarm();
        st.max_block = 5000ull << 20;
        st.cap = st.live_bytes + (5000ll << 20);
        S text((size_t)n, 'o');
        Str a(text), got;
        List<char> b(std::vector<char>(text.begin(), text.end())), more;
        const char* what = "";
        Outcome o = sut_armed([&] {
            switch ((u64)op.a[3] % 3)
            {
                case 0: what = "Str * n"; got = a * (int)times; break;
                case 1: what = "List * n"; more = b * (int)times; break;
                default: what = "List *= n"; b *= (int)times; break;
            } });
        st.max_block = 2000ull << 20;
        disarm();
        note(o.k);
        if (o.k == OK)
        {
            int size = std::max({got.size(), more.size(), (u64)op.a[3] % 3 == 2 ? b.size() : 0});
            fail("not-refused", "%s with %lld elements and n = %lld was accepted, the result has %d elements", what, (long long)n, (long long)times, size);
        }
        if (o.k != RTE && o.k != LENGTH && o.k != BADALLOC)
        {
            fail("unexpected-exception", "%s beyond the maximum size: %s", what, kind_names[o.k]);
        }
        if (S(a.data(), a.size()) != text || b.size() != (int)n || b[-1] != 'o')
        {
            fail("failed-op-effect", "a refused %s changed its operand", what);
        }
        probe("beyond_max_with_memory");
    }

    // objects near the largest size an int can count: the memory is really there
    void giant(const Op& op, Rng& r)
    {
        Turn turn;
        st.max_block = 5000ull << 20;
        i64 over = r.range(1, 1000);
        disarm();
        auto expect = [&](const char* what, auto f, auto size) {
            Outcome o = sut_armed(f);
            i64 got = size();
            note(o.k);
            if (o.k == OK)
            {
                fail("not-refused", "%s beyond 2147483647 elements was accepted, size() is now %lld", what, (long long)got);
            }
            if (o.k != RTE && o.k != LENGTH && o.k != BADALLOC)
            {
                fail("unexpected-exception", "%s beyond the maximum size: %s", what, kind_names[o.k]);
            }
            probe("giant");
        };
        auto accepted = [&](const char* what, auto f, auto check) {
            Outcome o = sut_armed(f);
            note(o.k);
            if (o.k != OK)
            {
                fail("refused", "%s with a result of at most 2147483647 elements and enough memory: %s", what, kind_names[o.k]);
            }
            check();
            probe("giant");
        };
        switch ((u64)op.a[2] % 8)
        {
            case 7: { // one text of nearly the largest size grows a little too much, in each way a text can grow
                const int way = (int)((u64)op.a[3] % 4);
                const i64 n = (i64)INT_MAX - (way ? (i64)r.below(3) : 0);
                S bytes((size_t)n, 'g');
                bytes.back() = 'z';
                Str a, b("xyz!"), got;
                accepted("Str of a std::string", [&] { a = Str(bytes); }, [&] {});
                S().swap(bytes);
                static const char* const ways[] = {"Str + char", "Str + Str", "Str.join", "Str.replace"};
                expect(
                    ways[way], [&] {
                        switch (way)
                        {
                            case 0: got = a + 'y'; break;
                            case 1: got = a + b; break;
                            case 2: got = Str("").join(List<Str>({b, a})); break;
                            default: got = a.replace("z", "zebra"); break;
                        } },
                    [&] { return got.size(); });
                if (a.size() != n || a[-1] != 'z' || a[0] != 'g')
                {
                    fail("failed-op-effect", "a refused %s changed its operand", ways[way]);
                }
                break;
            }
            case 4: {
                i64 n = INT_MAX / 2 + r.range(-200000000, 150000000), m = (i64)INT_MAX - (r.chance(50) ? 3 : 2 + over) - n; // the library's own limit is up to two elements lower here
                List<char> a, b;
                {
                    std::vector<char> v((size_t)n, 'g');
                    v.back() = 'z';
                    a = List<char>(v);
                }
                {
                    std::vector<char> v((size_t)m, 'h');
                    v.back() = 'y';
                    b = List<char>(v);
                }
                accepted("List += List", [&] { a += b; }, [&] {
                    if (a.size() != n + m || a[(int)n - 1] != 'z' || a[(int)n] != 'h' || a[-1] != 'y' || a[0] != 'g')
                    {
                        fail("wrong-content", "List += List with %lld and %lld elements: the result has %d elements", (long long)n, (long long)m, a.size());
                    } });
                break;
            }
            case 5: {
                i64 n = (i64)INT_MAX - (r.chance(70) ? 1 : over);
                List<char> a;
                {
                    std::vector<char> v((size_t)n, 'g');
                    v.back() = 'z';
                    a = List<char>(v);
                }
                bool append = (u64)op.a[3] % 2;
                accepted(append ? "List += element" : "List.insert", [&] { append ? (void)(a += 'x') : a.insert((int)n, 'x'); }, [&] {
                    if (a.size() != n + 1 || a[-1] != 'x' || a[-2] != 'z' || a[0] != 'g')
                    {
                        fail("wrong-content", "adding an element to a List with %lld: it has %d elements", (long long)n, a.size());
                    } });
                break;
            }
            case 6: {
                const i64 n = (i64)INT_MAX - (r.chance(60) ? (i64)r.below(2) : over);
                S bytes((size_t)n, 'g');
                bytes.back() = 'z';
                Str a;
                accepted("Str of a std::string", [&] { a = Str(bytes); }, [&] {
                    if (a.size() != n || a[-1] != 'z' || a[0] != 'g')
                    {
                        fail("wrong-content", "a Str made of %lld bytes has size %d", (long long)n, a.size());
                    } });
                break;
            }
            case 0: {
                Str a(S((size_t)1073741824 + over, 'g')), got;
                expect("Str + Str", [&] { got = a + a; }, [&] { return got.size(); });
                if (a.size() != 1073741824 + over || a[-1] != 'g' || a[0] != 'g')
                {
                    fail("failed-op-effect", "a refused Str + Str changed its operand");
                }
                break;
            }
            case 1: {
                List<char> a;
                {
                    std::vector<char> v((size_t)INT_MAX, 'g');
                    v.back() = 'z';
                    a = List<char>(v);
                }
                if ((u64)op.a[3] % 2)
                {
                    expect("List += element", [&] { a += 'x'; }, [&] { return a.size(); });
                }
                else
                {
                    expect("List.insert", [&] { a.insert(5, 'x'); }, [&] { return a.size(); });
                }
                if (a.size() != INT_MAX || a[-1] != 'z')
                {
                    fail("failed-op-effect", "a refused growth of a List changed it");
                }
                break;
            }
            case 2: {
                List<char> a;
                {
                    std::vector<char> v((size_t)1073741824 + over, 'g');
                    v.back() = 'z';
                    a = List<char>(v);
                }
                expect("List += List", [&] { a += a; }, [&] { return a.size(); });
                if (a.size() != 1073741824 + over || a[-1] != 'z')
                {
                    fail("failed-op-effect", "a refused List += List changed it");
                }
                break;
            }
            default: {
                List<char> a;
                std::vector<char> v((size_t)1073741824 + over, 'g');
                v.back() = 'z';
                a = List<char>(v);
                expect("List.extend", [&] { a.extend(v.begin(), v.end()); }, [&] { return a.size(); });
                if (a.size() != 1073741824 + over || a[-1] != 'z')
                {
                    fail("failed-op-effect", "a refused List.extend changed it");
                }
                break;
            }
        }
        st.max_block = 2000ull << 20;
    }
};

static std::unique_ptr<Seg> seg;
static void do_reset(const Op&) { seg.reset(new Seg); }
static void do_exec(const Op& op)
{
    if (seg)
    {
        seg->exec(op);
    }
}
static void do_finish() { seg.reset(); }

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    out.push_back(reset);
    if (gen_index % 397 == 200)
    {
        Op op;
        op.code = op_giant;
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 20);
        }
        op.a[2] = (i64)(gen_index / 397 % 8); // each kind in turn
        op.a[3] = (i64)(gen_index / (397 * 8));
        out.push_back(op);
        return;
    }
    if (r.below(100) == 0)
    {
        Op op;
        op.code = op_over;
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 20);
        }
        out.push_back(op);
    }
    GenFaults gf;
    if (r.chance(90))
    {
        gf.rate = (int)r.range(20, 90);
        gf.kinds.push_back(F_CAP);
        if (r.chance(40))
        {
            gf.kinds.push_back(F_ALLOC);
        }
        gf.maxbits = (int)r.range(1, 6);
    }
    std::vector<int> ops;
    for (int k = 1; k < op_over; ++k)
    {
        if (r.chance(40))
        {
            ops.push_back(k);
        }
    }
    ops.push_back(op_str_mul);
    int len = (int)r.range(4, thorough ? 40 : 22);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = ops[r.below(ops.size())];
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 20);
        }
        gf.apply(r, op);
        if (op.fk == F_NONE)
        {
            op.fk = F_CAP; // a large but finite heap
            op.fn = 4096;
        }
        out.push_back(op);
    }
}

namespace sim
{
World world = {"mem", names, N_OPS, "digest of (operation, outcome, injected fault, sizes of all objects) over a whole history",
               "Str, List, Deque, Set, Dict and Int with real memory up to 4 GB", "allocator with a simulated heap limit; element type",
               gen, do_reset, do_exec, do_finish, 60000000, 14000, 20000000};
}
