// World: histories of Str operations with failing allocations, against naive std::string references (C04).
#include "elem.hpp"
#include <algorithm>
#include <boost/multiprecision/cpp_int.hpp>
#include <memory>
#include <sstream>

using namespace sim;
using pyincpp::Int;
using pyincpp::List;
using pyincpp::Str;
typedef boost::multiprecision::cpp_int Ref;
typedef std::string S;

#define OPS(X) \
    X(RESET) X(make) X(make_chars) X(copy_construct) X(move_construct) X(copy_assign) X(move_assign) X(self_assign) X(swap) X(find) X(contains) X(count) X(prefix) X(suffix) \
    X(slice) X(slice_bad) X(rot_left) X(rot_right) X(reverse) X(lower) X(upper) X(erase) X(erase_bad) X(replace) X(strip) X(strip_char) X(add_char) X(add_str) X(mul) X(mul_bad) \
    X(split) X(split_bad) X(join) X(format) X(to_integer) X(to_integer_bad) X(compare) X(index) X(index_bad) X(examine) X(round_trip) X(chain) X(large)
enum Code
{
#define X(n) op_##n,
    OPS(X)
#undef X
        N_OPS
};
static const char* const names[] = {
#define X(n) #n,
    OPS(X)
#undef X
};

static int norm(i64 raw, i64 n) { return (int)((u64)raw % n); }

// texts as a pure function of two script numbers
static S text(i64 seed, i64 shape)
{
    Rng r(mix2((u64)seed, (u64)shape));
    static const int lens[] = {0, 1, 3, 8, 15, 16, 17, 31, 40, 90};
    int len = (int)r.below(lens[norm(shape, 10)] + 1);
    if (r.chance(35))
    {
        len = lens[norm(shape, 10)];
    }
    S s;
    int style = (int)r.below(10);
    static const char ws[] = " \t\n\r\v\f";
    while ((int)s.size() < len)
    {
        switch (style)
        {
            case 0: s += (char)r.below(256); break;
            case 1: s += (char)('a' + r.below(2)); break;
            case 2: s += 'a'; break;
            case 3: s += r.chance(50) ? ws[r.below(6)] : (char)r.range(0x1f, 0x80); break;
            case 4: s += (char)r.range(0x20, 0x7e); break;
            case 5: s += r.chance(30) ? '\0' : (char)r.range(0x60, 0x90); break;
            case 6: s += (char)("abAB@`[{_^~!/0"[r.below(14)]); break;
            case 7: s += r.chance(60) ? (char)("{}"[r.below(2)]) : (char)('a' + r.below(4)); break;
            case 8: s += (char)(0x80 + r.below(128)); break;
            default: s += r.chance(40) ? ", "[r.below(2)] : (char)('a' + r.below(3)); break;
        }
    }
    if (r.chance(12) && len)
    {
        s = S(r.below(3), " \t\xa0"[r.below(3)]) + s + S(r.below(4), " \n\x80"[r.below(3)]);
    }
    if (r.chance(6) && len)
    {
        decorate(r, s);
    }
    return s;
}

// ---- naive references
static int ref_find(const S& s, const S& p, int start, int stop)
{
    int n = (int)s.size(), m = (int)p.size();
    stop = std::min(stop, n);
    if (start > n || start > stop)
    {
        return -1;
    }
    for (int i = start; i + m <= stop; ++i)
    {
        bool eq = true;
        for (int k = 0; k < m && eq; ++k)
        {
            eq = s[i + k] == p[k];
        }
        if (eq)
        {
            return i;
        }
    }
    return -1;
}
static int ref_count(const S& s, const S& p)
{
    if (p.empty())
    {
        return (int)s.size() + 1;
    }
    int n = 0;
    for (int i = 0; (i = ref_find(s, p, i, INT_MAX)) != -1; i += (int)p.size())
    {
        ++n;
    }
    return n;
}
static S ref_replace(const S& s, const S& a, const S& b)
{
    S r;
    if (a.empty())
    {
        r = b;
        for (char c : s)
        {
            r += c;
            r += b;
        }
        return r;
    }
    int i = 0, k;
    while ((k = ref_find(s, a, i, INT_MAX)) != -1)
    {
        r += s.substr(i, k - i) + b;
        i = k + (int)a.size();
    }
    return r + s.substr(i);
}
static std::vector<S> ref_split(const S& s, const S& sep, bool keep)
{
    std::vector<S> r;
    S part;
    for (int i = 0; i <= (int)s.size();)
    {
        bool at = i + sep.size() <= s.size() && s.compare(i, sep.size(), sep) == 0;
        if (at || i == (int)s.size())
        {
            if (keep || !part.empty())
            {
                r.push_back(part);
            }
            part.clear();
            i += at ? (int)sep.size() : 1;
        }
        else
        {
            part += s[i++];
        }
    }
    return r;
}
static S ref_case(const S& s, bool up)
{
    S r = s;
    for (char& c : r)
    {
        if (up ? (c >= 'a' && c <= 'z') : (c >= 'A' && c <= 'Z'))
        {
            c ^= 0x20;
        }
    }
    return r;
}
static S ref_strip(const S& s, int ch)
{
    auto drop = [&](char c) { return ch == -1 ? (unsigned char)c <= 0x20 : c == (char)ch; };
    size_t i = 0, k = s.size();
    while (i < k && drop(s[i]))
    {
        ++i;
    }
    while (k > i && drop(s[k - 1]))
    {
        --k;
    }
    return s.substr(i, k - i);
}
static S ref_slice(const S& s, int start, int stop, int step)
{
    i64 n = (i64)s.size(), a = start < 0 ? start + n : start, b = stop < 0 ? stop + n : stop;
    S r;
    for (i64 i = a; step > 0 ? i < b : i > b; i += step)
    {
        r += s[i];
    }
    return r;
}
static S ref_rotate(const S& s, i64 left)
{
    i64 n = (i64)s.size();
    S r;
    for (i64 i = 0; i < n; ++i)
    {
        r += s[(((i + left) % n) + n) % n];
    }
    return r;
}
// one placeholder
static void ref_format(S& out, S& rest, const S& value)
{
    size_t a = rest.find('{');
    if (a == S::npos)
    {
        return;
    }
    size_t b = rest.find('}', a + 1);
    if (b == S::npos)
    {
        return;
    }
    out += rest.substr(0, a) + value;
    rest = rest.substr(b + 1);
}

static S raw(const Str& s)
{
    int n = 0;
    S r, it, back;
    bool empty = false;
    must("examination", [&] {
        n = s.size();
        empty = s.is_empty();
        Out out;
        r = S(s.data(), n);
        for (auto i = s.begin(); i != s.end(); ++i)
        {
            it += *i;
        }
        for (auto i = s.rbegin(); i != s.rend(); ++i)
        {
            back += *i;
        } });
    std::reverse(back.begin(), back.end());
    if (r != it || r != back || empty != (n == 0) || s.data()[n] != 0)
    {
        fail("content", "size(), data(), is_empty() and the iterators of a Str disagree: %s vs %s", show(r).c_str(), show(it).c_str());
    }
    return r;
}

struct Seg
{
    static const int N = 5;
    Str X[N];
    S M[N];
    int max_len;

    explicit Seg(const Op& r)
        : max_len((int)r.a[1])
    {
    }
    void verify(const char* cls)
    {
        for (int i = 0; i < N; ++i)
        {
            S got = raw(X[i]);
            if (got != M[i])
            {
                fail(cls, "%s: object %d is %s, expected %s", names[cur_op->code], i, show(got).c_str(), show(M[i]).c_str());
            }
        }
    }
    auto keep()
    {
        return [this](const Outcome&) {
            verify("failed-op-effect");
            return RETRY;
        };
    }
    // f produces a Str; it must be want, the operands must stay, and it may become object k
    template <class F>
    void expect_str(F f, const S& want, int k)
    {
        std::unique_ptr<Str> r;
        Outcome o = run_op([&] { r.reset(new Str(f())); }, keep());
        if (o.k != OK)
        {
            fail("refused-valid", "%s refused valid arguments: %s", names[cur_op->code], o.what.c_str());
        }
        S got = raw(*r);
        if (got != want)
        {
            fail("wrong-result", "%s gives %s, expected %s", names[cur_op->code], show(got).c_str(), show(want).c_str());
        }
        verify("operand-changed");
        if (k >= 0 && (int)want.size() <= max_len)
        {
            must("moving", [&] { X[k] = std::move(*r); });
            M[k] = want;
        }
    }
    template <class T, class F>
    void expect_val(F f, T want, const char* what)
    {
        T got = T();
        Outcome o = run_op([&] { got = f(); }, keep());
        if (o.k != OK)
        {
            fail("refused-valid", "%s refused valid arguments: %s", what, o.what.c_str());
        }
        if (got != want)
        {
            fail("wrong-result", "%s is %lld, expected %lld (object %s)", what, (long long)got, (long long)want, show(M[norm(cur_op->a[0], N)]).c_str());
        }
    }
    template <class F>
    void expect_refusal(F f)
    {
        Outcome o = run_op(f, keep());
        if (o.k != RTE)
        {
            fail("not-refused", "%s was accepted", names[cur_op->code]);
        }
        verify("rejected-op-effect");
    }
    template <class F>
    void change(F f) // must take effect or leave everything as it is
    {
        Outcome o = run_op(f, keep());
        if (o.k != OK)
        {
            fail("refused-valid", "%s refused: %s", names[cur_op->code], o.what.c_str());
        }
    }
    // a pattern related to s
    static S pattern(const S& s, i64 seed, i64 shape)
    {
        Rng r(mix2(seed, shape + 99));
        switch (r.below(6))
        {
            case 0: return text(seed, shape);
            case 1: return s;
            case 2: return r.chance(50) ? S() : text(seed, 1);
            default: break;
        }
        if (s.empty())
        {
            return text(seed, 1);
        }
        size_t a = r.below(s.size()), n = 1 + r.below(r.chance(60) ? 2 : s.size());
        S p = s.substr(a, n);
        if (r.chance(20))
        {
            p.back() ^= 1;
        }
        return p;
    }
    static S cat(const S& a, const S& b) { return a + b; }

    void exec(const Op& op)
    {
        const int i = norm(op.a[0], N), j = norm(op.a[1], N), k = norm(op.a[2], N);
        const i64 seed = op.a[3], shape = op.a[4], extra = op.a[5];
        Rng r(mix2(mix2(seed, shape), extra));
        const S s = M[i];
        const int n = (int)s.size();
        const Str& x = X[i];
        switch (op.code)
        {
            case op_make: {
                S t = text(seed, shape);
                if ((int)t.size() <= max_len)
                {
                    expect_str([&] { return Str(t); }, t, k);
                }
                break;
            }
            case op_make_chars: {
                S t = text(seed, shape);
                S u = t.c_str();
                expect_str([&] { return Str(t.c_str()); }, u, k);
                break;
            }
            case op_copy_construct: expect_str([&] { return Str(x); }, s, k); break;
            case op_move_construct: {
                std::unique_ptr<Str> t;
                change([&] { t.reset(new Str(std::move(X[i]))); });
                M[i] = "";
                if (raw(*t) != s)
                {
                    fail("wrong-result", "move construction gives %s, expected %s", show(raw(*t)).c_str(), show(s).c_str());
                }
                verify("moved-from");
                must("moving", [&] { X[k] = std::move(*t); });
                M[k] = s;
                if (!raw(*t).empty())
                {
                    fail("moved-from", "a moved-from Str holds %s", show(raw(*t)).c_str());
                }
                break;
            }
            case op_copy_assign:
                change([&] { X[k] = X[i]; });
                M[k] = s;
                break;
            case op_move_assign:
                if (k != i)
                {
                    change([&] { X[k] = std::move(X[i]); });
                    M[k] = s;
                    M[i] = "";
                }
                break;
            case op_self_assign: change([&] { X[i] = const_cast<const Str&>(X[i]); }); break;
            case op_swap:
                change([&] { std::swap(X[i], X[k]); });
                std::swap(M[i], M[k]);
                break;
            case op_find:
            case op_contains: {
                S p = extra % 5 == 0 ? M[j] : pattern(s, seed, shape);
                Str ps(p);
                int start = norm(shape, 3) ? 0 : (int)r.below(n + 3), stop = norm(seed, 3) ? INT_MAX : (int)r.below(n + 4) - 1;
                int want = ref_find(s, p, start, stop);
                bool defaults = start == 0 && stop == INT_MAX && extra % 2;
                if (op.code == op_find)
                {
                    expect_val<int>([&] { return defaults ? x.find(ps) : x.find(ps, start, stop); }, want, fmt("find(%s, %d, %d)", show(p).c_str(), start, stop).c_str());
                }
                else
                {
                    expect_val<bool>([&] { return defaults ? x.contains(ps) : x.contains(ps, start, stop); }, want != -1, fmt("contains(%s, %d, %d)", show(p).c_str(), start, stop).c_str());
                }
                break;
            }
            case op_count: {
                S p = extra % 5 == 0 ? M[j] : pattern(s, seed, shape);
                Str ps(p);
                expect_val<int>([&] { return x.count(ps); }, ref_count(s, p), fmt("count(%s)", show(p).c_str()).c_str());
                break;
            }
            case op_prefix:
            case op_suffix: {
                bool pre = op.code == op_prefix;
                S p;
                if (extra % 4)
                {
                    int m = (int)r.below(n + 1);
                    p = pre ? s.substr(0, m) : s.substr(n - m);
                    if (r.chance(30) && m)
                    {
                        p[r.below(m)] ^= 0x20;
                    }
                    if (r.chance(10))
                    {
                        p += 'z';
                    }
                }
                else
                {
                    p = M[j];
                }
                Str ps(p);
                bool want = p.size() <= s.size() && (pre ? s.substr(0, p.size()) : s.substr(n - p.size())) == p;
                expect_val<bool>([&] { return pre ? x.starts_with(ps) : x.ends_with(ps); }, want, pre ? "starts_with" : "ends_with");
                break;
            }
            case op_slice: {
                if (!n)
                {
                    break;
                }
                int start = (int)r.range(-n, n - 1), stop = (int)r.range(-n - 1, n);
                static const int steps[] = {1, 1, -1, 2, -2, 3, -3, INT_MAX, INT_MIN, 1000000};
                int step = steps[norm(extra, 10)];
                if (stop == -n - 1 && step > 0)
                {
                    stop = -n;
                }
                S want = ref_slice(s, start, stop, step);
                if (step == 1 && extra % 3)
                {
                    expect_str([&] { return x.slice(start, stop); }, want, k);
                }
                else
                {
                    expect_str([&] { return x.slice(start, stop, step); }, want, k);
                }
                break;
            }
            case op_slice_bad:
                switch (extra % 4)
                {
                    case 0: expect_refusal([&] { x.slice(n + (int)r.below(3), n, 1); }); break;
                    case 1: expect_refusal([&] { x.slice(-n - 1 - (int)r.below(3), n, 1); }); break;
                    case 2:
                        if (n)
                        {
                            expect_refusal([&] { x.slice(0, n + 1 + (int)r.below(3), 1); });
                        }
                        break;
                    default:
                        if (n)
                        {
                            expect_refusal([&] { x.slice(0, n, 0); });
                        }
                        break;
                }
                break;
            case op_rot_left:
            case op_rot_right: {
                static const int special[] = {INT_MIN, INT_MAX, 0, 1, -1};
                int m = extra % 4 == 0 ? special[norm(seed, 5)] : (int)r.range(-2 * n - 2, 2 * n + 2);
                bool left = op.code == op_rot_left;
                S want = n ? ref_rotate(s, left ? (i64)m : -(i64)m) : s;
                expect_str([&] { return left ? x << m : x >> m; }, want, k);
                break;
            }
            case op_reverse: expect_str([&] { return x.reverse(); }, S(s.rbegin(), s.rend()), k); break;
            case op_lower: expect_str([&] { return x.lower(); }, ref_case(s, false), k); break;
            case op_upper: expect_str([&] { return x.upper(); }, ref_case(s, true), k); break;
            case op_erase: {
                int a = (int)r.below(n + 1), b = (int)r.range(a, n);
                expect_str([&] { return x.erase(a, b); }, s.substr(0, a) + s.substr(b), k);
                break;
            }
            case op_erase_bad: {
                int a = (int)r.below(n + 1);
                switch (extra % 3)
                {
                    case 0: expect_refusal([&] { x.erase(-1, a); }); break;
                    case 1: expect_refusal([&] { x.erase(a, n + 1); }); break;
                    default: expect_refusal([&] { x.erase(a, a - 1); }); break;
                }
                break;
            }
            case op_replace: {
                S a = extra % 5 == 0 ? M[j] : pattern(s, seed, shape);
                S b = extra % 7 == 0 ? M[k] : text(seed + 1, shape % 5);
                S want = ref_replace(s, a, b);
                if (want.size() > 3000)
                {
                    break;
                }
                if (extra % 5 == 0 && extra % 7 == 0)
                {
                    expect_str([&] { return x.replace(X[j], X[k]); }, want, k);
                }
                else
                {
                    Str as(a), bs(b);
                    expect_str([&] { return x.replace(as, bs); }, want, k);
                    if (raw(as) != a || raw(bs) != b)
                    {
                        fail("operand-changed", "replace changed its arguments");
                    }
                }
                break;
            }
            case op_strip: expect_str([&] { return x.strip(); }, ref_strip(s, -1), k); break;
            case op_strip_char: {
                char c = n && extra % 4 ? (extra % 2 ? s[0] : s[n - 1]) : (char)r.below(256);
                if (c == (char)-1)
                {
                    break; // the value that stands for "blank characters"
                }
                expect_str([&] { return x.strip(c); }, ref_strip(s, c == (char)-1 ? -1 : (unsigned char)c), k);
                break;
            }
            case op_add_char: {
                char c = (char)r.below(256);
                expect_str([&] { return x + c; }, s + c, k);
                break;
            }
            case op_add_str: expect_str([&] { return x + X[j]; }, s + M[j], k); break;
            case op_mul: {
                int m = (int)r.below(n > 40 ? 4 : 9);
                S want;
                for (int t = 0; t < m; ++t)
                {
                    want += s;
                }
                expect_str([&] { return x * m; }, want, k);
                break;
            }
            case op_mul_bad: expect_refusal([&] { x * (extra % 2 ? -1 : INT_MIN); }); break;
            case op_split:
            case op_round_trip: {
                S sep = pattern(s, seed, shape);
                if (extra % 5 == 0)
                {
                    sep = " ";
                }
                if (sep.empty())
                {
                    sep = "a";
                }
                bool keep_empty = extra % 2 || op.code == op_round_trip;
                std::vector<S> want = ref_split(s, sep, keep_empty);
                Str seps(sep);
                std::unique_ptr<List<Str>> got;
                bool defaults = sep == " " && !keep_empty;
                change([&] { got.reset(new List<Str>(defaults ? x.split() : keep_empty ? x.split(seps, true) : x.split(seps))); });
                bool same = got->size() == (int)want.size();
                S list;
                for (int t = 0; t < got->size(); ++t)
                {
                    S e = raw((*got)[t]);
                    list += show(e) + " ";
                    same = same && e == want[t];
                }
                if (!same)
                {
                    S w;
                    for (auto& e : want)
                    {
                        w += show(e) + " ";
                    }
                    fail("wrong-result", "splitting %s by %s gives %s, expected %s", show(s).c_str(), show(sep).c_str(), list.c_str(), w.c_str());
                }
                if (op.code == op_round_trip)
                {
                    expect_str([&] { return seps.join(*got); }, s, k);
                }
                break;
            }
            case op_split_bad: expect_refusal([&] { x.split("", extra % 2); }); break;
            case op_join: {
                List<Str> parts;
                S want;
                int m = (int)r.below(6);
                for (int t = 0; t < m; ++t)
                {
                    S e = r.chance(50) ? M[r.below(N)] : text(seed + t, r.below(6));
                    parts += Str(e);
                    want += (t ? s : S()) + e;
                }
                expect_str([&] { return x.join(parts); }, want, k);
                if (parts.size() != m)
                {
                    fail("operand-changed", "join changed its argument");
                }
                break;
            }
            case op_format: {
                S tpl = extra % 3 == 0 ? s : S();
                if (extra % 3)
                {
                    int m = (int)r.below(5);
                    for (int t = 0; t < m; ++t)
                    {
                        tpl += text(seed + t, r.below(5)) + (r.chance(70) ? "{}" : r.chance(50) ? "{name}" : "");
                    }
                    tpl += text(seed + 9, r.below(5));
                }
                Str t(tpl);
                S out, rest = tpl;
                int num = (int)r.range(-100000, 100000);
                std::string big = (r.chance(50) ? "-7" : "12") + S(r.below(40), '9');
                Int ib(big.c_str());
                switch (norm(extra / 3, 6))
                {
                    case 0: expect_str([&] { return t.format(); }, tpl, k); break;
                    case 1:
                        ref_format(out, rest, fmt("%d", num));
                        expect_str([&] { return t.format(num); }, out + rest, k);
                        break;
                    case 2:
                        ref_format(out, rest, "\"" + M[j] + "\"");
                        ref_format(out, rest, fmt("%d", num));
                        expect_str([&] { return t.format(X[j], num); }, out + rest, k);
                        break;
                    case 3: {
                        S cs = text(seed + 3, shape);
                        cs = cs.c_str();
                        ref_format(out, rest, cs);
                        ref_format(out, rest, big);
                        ref_format(out, rest, "x");
                        expect_str([&] { return t.format(cs.c_str(), ib, 'x'); }, out + rest, k);
                        break;
                    }
                    case 4: {
                        S st = text(seed + 3, shape);
                        ref_format(out, rest, st);
                        ref_format(out, rest, st);
                        ref_format(out, rest, "2.5");
                        ref_format(out, rest, fmt("%d", num));
                        expect_str([&] { return t.format(st, st, 2.5, num); }, out + rest, k);
                        break;
                    }
                    default: {
                        List<int> l{num, 2, 3};
                        ref_format(out, rest, fmt("[%d, 2, 3]", num));
                        expect_str([&] { return t.format(l); }, out + rest, k);
                        break;
                    }
                }
                if (raw(t) != tpl)
                {
                    fail("operand-changed", "format changed the template");
                }
                break;
            }
            case op_to_integer:
            case op_to_integer_bad: {
                int base = (int)r.range(2, 36);
                if (r.chance(40))
                {
                    base = 10;
                }
                static const char lo[] = "0123456789abcdefghijklmnopqrstuvwxyz", up[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
                Ref want = 0;
                S digits;
                int m = (int)r.range(1, r.chance(80) ? 8 : 26);
                for (int t = 0; t < m; ++t)
                {
                    int d = r.chance(20) ? 0 : (int)r.below(base);
                    digits += r.chance(50) ? lo[d] : up[d];
                    want = want * base + d;
                }
                int sign = (int)r.below(3);
                if (sign == 2)
                {
                    want = -want;
                }
                static const char* const blanks[] = {"", "", " ", "\t", "\n", "\r", "  \n"};
                S lit = S(blanks[r.below(7)]) + (sign == 1 ? "+" : sign == 2 ? "-" : "") + digits + blanks[r.below(7)];
                if (op.code == op_to_integer_bad)
                {
                    switch (r.below(8))
                    {
                        case 0: lit = ""; break;
                        case 1: lit = " "; break;
                        case 2: lit = "+"; break;
                        case 3: lit += base < 36 ? S(1, lo[base]) : S("_"); break;
                        case 4: lit += " 1"; break;
                        case 5: lit = "-" + S(sign ? "" : "-") + lit; break;
                        case 6: lit += '\0'; break;
                        default: lit.insert(r.below(lit.size() + 1), 1, (char)(0x80 + r.below(128))); break;
                    }
                    if (lit == digits)
                    {
                        break;
                    }
                    bool one_sign = lit.size() && (lit[0] == '-') && lit.size() > 1 && (lit[1] != '-' && lit[1] != '+' && lit[1] != ' ' && lit[1] != '\t' && lit[1] != '\n' && lit[1] != '\r');
                    if (one_sign && lit.find_first_not_of("-0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ \t\n\r") == S::npos)
                    {
                        break;
                    }
                    if (sign && r.chance(15))
                    {
                        // a bad base
                        static const int bad[] = {1, 0, -1, 37, INT_MAX, INT_MIN};
                        int b = bad[r.below(6)];
                        Str t(digits);
                        expect_refusal([&] { t.to_integer(b); });
                        break;
                    }
                    Str t(lit);
                    expect_refusal([&] { t.to_integer(base); });
                    break;
                }
                Str t(lit);
                std::unique_ptr<Int> got;
                change([&] { got.reset(new Int(base == 10 && extra % 2 ? t.to_integer() : t.to_integer(base))); });
                std::ostringstream os;
                os << *got;
                if (os.str() != want.str())
                {
                    fail("wrong-result", "Str %s to_integer(%d) is %s, expected %s", show(lit).c_str(), base, os.str().c_str(), want.str().c_str());
                }
                if (raw(t) != lit)
                {
                    fail("operand-changed", "to_integer changed the string");
                }
                break;
            }
            case op_compare: {
                S q = extra % 3 == 0 ? s : extra % 3 == 1 ? M[j] : text(seed, shape);
                if (extra % 2 && !q.empty())
                {
                    q[r.below(q.size())] ^= 0x80 >> r.below(8);
                }
                Str y(q);
                int c = s.compare(q);
                int got[6] = {};
                size_t h1 = 0, h2 = 0;
                change([&] {
                    got[0] = x == y;
                    got[1] = x != y;
                    got[2] = x < y;
                    got[3] = x <= y;
                    got[4] = x > y;
                    got[5] = x >= y;
                    h1 = std::hash<Str>{}(x);
                    h2 = std::hash<Str>{}(y);
                });
                int want[6] = {c == 0, c != 0, c < 0, c <= 0, c > 0, c >= 0};
                if (memcmp(got, want, sizeof got))
                {
                    fail("wrong-result", "comparing %s with %s gives ==%d !=%d <%d <=%d >%d >=%d", show(s).c_str(), show(q).c_str(), got[0], got[1], got[2], got[3], got[4], got[5]);
                }
                if (c == 0 && h1 != h2)
                {
                    fail("wrong-result", "equal strings have different hashes");
                }
                break;
            }
            case op_index:
                if (n)
                {
                    int at = (int)r.range(-n, n - 1);
                    expect_val<int>([&] { return (unsigned char)x[at]; }, (unsigned char)s[at < 0 ? at + n : at], fmt("[%d]", at).c_str());
                }
                break;
            case op_index_bad: {
                static const int far[] = {0, 1, 1000, INT_MAX};
                int at = (int)std::min<i64>((i64)n + far[r.below(4)], INT_MAX);
                expect_refusal([&] { (void)x[extra % 2 ? at : -at - 1]; });
                break;
            }
            case op_examine: raw(x); break;
            case op_chain: {
                // results of one operation feed the next without intermediate names
                S a = pattern(s, seed, shape), b = text(seed + 2, 2);
                S want = ref_strip(ref_case(ref_replace(s, a, b), true), -1);
                want = S(want.rbegin(), want.rend()) + b;
                if (want.size() > 3000)
                {
                    break;
                }
                Str as(a), bs(b);
                expect_str([&] { return x.replace(as, bs).upper().strip().reverse() + bs; }, want, k);
                break;
            }
            case op_large: {
                // long strings: the same operations, in linear time
                static const int sizes[] = {300, 1024, 1030, 4096, 4100, 5000, 32768, 65536, 65600, 70001, 131073};
                int len = sizes[norm(seed, 11)] + (int)r.below(3);
                S big(len, 'a');
                if (r.chance(70))
                {
                    for (char& c : big)
                    {
                        c = r.chance(2) ? (char)r.below(256) : (char)('a' + r.below(26));
                    }
                }
                const Str b(big);
                auto any = [&](int lim) { return (int)(r.chance(30) ? r.range(0, 40) : r.range(0, lim)); };
                switch (norm(shape, 14))
                {
                    case 0: {
                        int m = any(len);
                        expect_str([&] { return b << m; }, ref_rotate(big, m), -1);
                        break;
                    }
                    case 1: {
                        int m = any(2 * len);
                        expect_str([&] { return b >> m; }, ref_rotate(big, -(i64)m), -1);
                        break;
                    }
                    case 2: expect_str([&] { return b.reverse(); }, S(big.rbegin(), big.rend()), -1); break;
                    case 3: expect_str([&] { return extra % 2 ? b.upper() : b.lower(); }, ref_case(big, extra % 2), -1); break;
                    case 4: {
                        int at = any(len), to = (int)r.range(at, len);
                        expect_str([&] { return b.erase(at, to); }, big.substr(0, at) + big.substr(to), -1);
                        break;
                    }
                    case 5: {
                        int at = std::min(any(len), len - 1), to = any(len), step = (int)r.range(1, 9);
                        step = to < at ? -step : step;
                        expect_str([&] { return b.slice(at, to, step); }, ref_slice(big, at, to, step), -1);
                        break;
                    }
                    case 6: {
                        S pat = big.substr(any(len - 3), 3), to = text(seed, 2);
                        S want;
                        size_t from = 0, hit;
                        while ((hit = big.find(pat, from)) != S::npos && pat.size())
                        {
                            want += big.substr(from, hit - from) + to;
                            from = hit + pat.size();
                        }
                        want += big.substr(from);
                        Str ps(pat), ts(to);
                        expect_str([&] { return b.replace(ps, ts); }, want, -1);
                        break;
                    }
                    case 7: {
                        S pad = S(any(len), ' ') + big + S(any(3000), '\n');
                        Str ps(pad);
                        expect_str([&] { return ps.strip(); }, ref_strip(pad, -1), -1);
                        break;
                    }
                    case 8: {
                        Str more(big.substr(0, any(len)));
                        expect_str([&] { return b + more; }, big + raw(more), -1);
                        break;
                    }
                    case 9: {
                        int m = (int)r.range(1, 5);
                        S want;
                        for (int t = 0; t < m; ++t)
                        {
                            want += big;
                        }
                        expect_str([&] { return b * m; }, want, -1);
                        break;
                    }
                    case 10: {
                        int at = any(len - 4), from = any(at);
                        S pat = big.substr(at, 1 + r.below(4));
                        Str ps(pat);
                        expect_val<int>([&] { return b.find(ps, from); }, (int)big.find(pat, from), "find in a long string");
                        bool pre = big.compare(0, pat.size(), pat) == 0;
                        expect_val<bool>([&] { return b.starts_with(ps); }, pre, "starts_with of a long string");
                        break;
                    }
                    case 11: {
                        S pat = big.substr(any(len - 4), 1 + r.below(2));
                        int want = 0;
                        for (size_t h = 0; (h = big.find(pat, h)) != S::npos; h += pat.size())
                        {
                            ++want;
                        }
                        Str ps(pat);
                        expect_val<int>([&] { return b.count(ps); }, want, "count in a long string");
                        break;
                    }
                    case 12: {
                        S sep(1, (char)('a' + r.below(26)));
                        std::vector<S> want;
                        S part;
                        for (char c : big)
                        {
                            if (c == sep[0])
                            {
                                want.push_back(part);
                                part.clear();
                            }
                            else
                            {
                                part += c;
                            }
                        }
                        want.push_back(part);
                        Str seps(sep);
                        std::unique_ptr<List<Str>> got;
                        change([&] { got.reset(new List<Str>(b.split(seps, true))); });
                        bool same = got->size() == (int)want.size();
                        for (int t = 0; same && t < got->size(); ++t)
                        {
                            const Str& e = (*got)[t];
                            same = S(e.data(), e.size()) == want[t];
                        }
                        if (!same)
                        {
                            fail("wrong-result", "splitting a string of %d characters gives %d parts, expected %zu, or wrong ones", len, got->size(), want.size());
                        }
                        expect_str([&] { return seps.join(*got); }, big, -1);
                        break;
                    }
                    default: {
                        S other = big;
                        int at = any(len - 1);
                        other[at] = (char)(other[at] ^ 1);
                        Str os(other), same(big);
                        bool less = (unsigned char)big[at] < (unsigned char)other[at];
                        expect_val<bool>([&] { return b == os; }, false, "== of long strings");
                        expect_val<bool>([&] { return b == same; }, true, "== of long strings");
                        expect_val<bool>([&] { return b < os; }, less, "< of long strings");
                        expect_val<bool>([&] { return std::hash<Str>{}(b) == std::hash<Str>{}(same); }, true, "equal hashes of long strings");
                        break;
                    }
                }
                if (raw(b) != big)
                {
                    fail("operand-changed", "an operation changed a long string");
                }
                break;
            }
        }
        verify("content");
        note(hash_str(M[k]));
    }
};

static std::unique_ptr<Seg> seg;
static void do_reset(const Op& op) { seg.reset(new Seg(op)); }
static void do_exec(const Op& op)
{
    if (seg)
    {
        seg->exec(op);
    }
}
static void do_finish() { seg.reset(); }

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    reset.a[1] = r.chance(60) ? r.range(20, 60) : r.range(60, thorough ? 400 : 200);
    out.push_back(reset);
    GenFaults gf;
    static const int all[] = {F_ALLOC, F_ALLOC_STICKY, F_ALLOC_SWEEP};
    if (r.chance(75))
    {
        gf.rate = (int)r.range(10, 60);
        for (int k : all)
        {
            if (r.chance(60))
            {
                gf.kinds.push_back(k);
            }
        }
        gf.maxbits = (int)r.range(1, 5);
    }
    std::vector<int> ops;
    for (int k = 1; k < N_OPS; ++k)
    {
        if (k != op_large && r.chance(55))
        {
            ops.push_back(k);
        }
    }
    ops.push_back(op_make);
    ops.push_back(op_make);
    int len = (int)r.range(5, thorough ? 60 : 35);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = ops[r.below(ops.size())];
        if (r.below(1200) == 0)
        {
            op.code = op_large;
        }
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 20);
        }
        gf.apply(r, op);
        out.push_back(op);
    }
}

namespace sim
{
World world = {"str", names, N_OPS, "digest of (operation, outcome, injected fault, resulting text) over a whole history",
               "pyincpp::Str (with List and Int where an operation uses them), std::string and std::ostringstream underneath", "allocator (operator new)",
               gen, do_reset, do_exec, do_finish, 30000000, 300000, 60000000};
}
