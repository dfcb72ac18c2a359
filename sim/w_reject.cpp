// World: invalid requests at every point of a history over every type, with failing allocations (C10).
#include "elem.hpp"
#include <algorithm>
#include <boost/multiprecision/cpp_int.hpp>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <sstream>

using namespace sim;
using namespace pyincpp;
typedef boost::multiprecision::cpp_int Ref;

enum Code { op_RESET, op_grow, op_shrink, op_clear, op_bad_list, op_bad_deque, op_bad_set, op_bad_dict, op_bad_str, op_bad_int, op_bad_fraction, op_bad_complex, op_use, N_OPS };
static const char* const names[] = {"RESET", "grow", "shrink", "clear", "bad_list", "bad_deque", "bad_set", "bad_dict", "bad_str", "bad_int", "bad_fraction", "bad_complex", "use"};

static const int FAR[] = {INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1 << 20, -(1 << 20)};

struct Seg
{
    List<Elem> l;
    Model ml;
    List<Int> li;
    Deque<Elem> d;
    Model md;
    Set<Elem> s;
    std::map<i64, i64> ms; // value -> tag
    Dict<Elem, Elem> m;
    std::map<i64, MV> mm;
    Dict<Str, Int> mi;
    Str t;
    std::string mt;
    Int x;
    Ref mx;
    Fraction f;
    int fn = 0, fd = 1;
    Complex c;
    double cr = 0, ci = 0;
    i64 tags = 0;

    static int norm(i64 raw, i64 n) { return (int)((u64)raw % n); }

    void verify(const char* cls)
    {
        must("inspection", [&] {
            Out out;
            if (!seq_equal<Elem>(l, ml))
            {
                fail(cls, "%s: the List is %s, expected %s", names[cur_op->code], show_cont<List<Elem>, Elem>(l).c_str(), show_model(ml, true).c_str());
            }
            if (!seq_equal<Elem>(d, md))
            {
                fail(cls, "%s: the Deque is %s, expected %s", names[cur_op->code], show_cont<Deque<Elem>, Elem>(d).c_str(), show_model(md, true).c_str());
            }
            bool ok = s.size() == (int)ms.size();
            auto si = ms.begin();
            for (auto it = s.begin(); ok && it != s.end(); ++it, ++si)
            {
                ok = si != ms.end() && it->v() == si->first && it->tag() == si->second;
            }
            if (!ok)
            {
                fail(cls, "%s: the Set is %s", names[cur_op->code], show_cont<Set<Elem>, Elem>(s).c_str());
            }
            ok = m.size() == (int)mm.size();
            auto mi_ = mm.begin();
            for (auto it = m.begin(); ok && it != m.end(); ++it, ++mi_)
            {
                ok = mi_ != mm.end() && it->first.v() == mi_->first && it->second.v() == mi_->second.v && it->second.tag() == mi_->second.tag;
            }
            if (!ok)
            {
                fail(cls, "%s: the Dict changed (size %d, expected %zu)", names[cur_op->code], m.size(), mm.size());
            }
            if (std::string(t.data(), t.size()) != mt)
            {
                fail(cls, "%s: the Str is %s, expected %s", names[cur_op->code], show(std::string(t.data(), t.size())).c_str(), show(mt).c_str());
            }
            std::ostringstream o;
            o << x;
            if (o.str() != mx.str() || x.is_zero() != (mx == 0) || x.is_negative() != (mx < 0))
            {
                fail(cls, "%s: the Int is %s, expected %s", names[cur_op->code], o.str().c_str(), mx.str().c_str());
            }
            if (f.numerator() != fn || f.denominator() != fd)
            {
                fail(cls, "%s: the Fraction is %d/%d, expected %d/%d", names[cur_op->code], f.numerator(), f.denominator(), fn, fd);
            }
            if (c.real() != cr || c.imag() != ci)
            {
                fail(cls, "%s: the Complex is %g%+gj, expected %g%+gj", names[cur_op->code], c.real(), c.imag(), cr, ci);
            } });
    }
    auto keep()
    {
        return [this](const Outcome&) {
            verify("failed-op-effect");
            return RETRY;
        };
    }
    template <class F>
    void bad(const char* what, F fun)
    {
        Outcome o = run_op(fun, keep());
        if (o.k != RTE)
        {
            fail("not-refused", "%s did not throw std::runtime_error (%s)", what, kind_names[o.k]);
        }
        verify("rejected-op-effect");
        note(hash_str(what));
    }
    template <class F>
    void good(const char* what, F fun)
    {
        Outcome o = sut_clean(fun);
        if (o.k != OK)
        {
            fail("not-usable", "%s failed after a history of refused requests: %s", what, o.what.c_str());
        }
    }

    // many elements at once: code may treat large objects in another way
    void grow_much(Rng& r)
    {
        const int n = (int)r.range(16, r.chance(20) ? 700 : 150);
        std::vector<Elem> more;
        for (int k = 0; k < n; ++k)
        {
            more.emplace_back((i64)r.below(2 * n), ++tags);
        }
        switch (r.below(6))
        {
            case 0:
                good("List.extend", [&] { l.extend(more.begin(), more.end()); });
                for (const Elem& e : more)
                {
                    ml.push_back(MV{e.v(), e.tag()});
                }
                break;
            case 1:
                good("Deque.extend_back", [&] { d.extend_back(more.begin(), more.end()); });
                for (const Elem& e : more)
                {
                    md.push_back(MV{e.v(), e.tag()});
                }
                break;
            case 2:
                good("Set.extend", [&] { s.extend(more.begin(), more.end()); });
                for (const Elem& e : more)
                {
                    ms.emplace(e.v(), e.tag());
                }
                break;
            case 3:
                good("Dict.add", [&] {
                    for (const Elem& e : more)
                    {
                        m.add(e, e);
                    }
                });
                for (const Elem& e : more)
                {
                    mm.emplace(e.v(), MV{e.v(), e.tag()});
                }
                break;
            case 4: {
                std::string add;
                for (int k = 0; k < n; ++k)
                {
                    add += (char)('a' + r.below(3));
                }
                good("Str +", [&] { t = t + Str(add); });
                mt += add;
                break;
            }
            default: {
                std::string digits = r.chance(50) ? "-" : "";
                digits += (char)('1' + r.below(9));
                for (int k = 1; k < n; ++k)
                {
                    digits += (char)('0' + r.below(10));
                }
                good("Int =", [&] { x = Int(digits.c_str()); });
                mx = Ref(digits);
                break;
            }
        }
        probe("large_objects");
        verify("content");
    }

    void grow(const Op& op)
    {
        Rng r(mix2(op.a[1], op.a[2]));
        if (op.a[0] % 16 == 5)
        {
            return grow_much(r);
        }
        for (int n = (int)r.range(1, 5); n > 0; --n)
        {
            i64 v = (i64)r.below(15), tag = ++tags;
            Elem e(v, tag), key((i64)r.below(15), 0);
            switch (r.below(8))
            {
                case 0: {
                    int at = (int)r.below(ml.size() + 1);
                    good("List insert", [&] { l.insert(at, e); });
                    ml.insert(ml.begin() + at, MV{v, tag});
                    break;
                }
                case 1:
                    good("List +=", [&] { l += e; });
                    ml.push_back(MV{v, tag});
                    break;
                case 2:
                    good("Deque push_front", [&] { d.push_front(e); });
                    md.insert(md.begin(), MV{v, tag});
                    break;
                case 3:
                    good("Deque push_back", [&] { d.push_back(e); });
                    md.push_back(MV{v, tag});
                    break;
                case 4:
                    good("Set add", [&] { s.add(e); });
                    ms.emplace(v, tag);
                    break;
                case 5:
                    good("Dict add", [&] { m.add(key, e); });
                    mm.emplace(key.v(), MV{v, tag});
                    break;
                case 6: {
                    std::string add(r.below(6), (char)('a' + r.below(3)));
                    good("Str +", [&] { t = t + Str(add); });
                    mt += add;
                    break;
                }
                default: {
                    int k = (int)r.range(-1000, 1000);
                    if (abs(mx) > Ref("1000000000000000000000000000000") && r.chance(70))
                    {
                        mx = 5;
                        good("Int =", [&] { x = 5; });
                    }
                    good("Int arithmetic", [&] { x = x * 7 + k; });
                    mx = mx * 7 + k;
                    int a = (int)r.range(-40, 40), b = (int)r.range(1, 40);
                    good("Fraction =", [&] { f = Fraction(a, b); });
                    fn = a / std::gcd(a, b);
                    fd = b / std::gcd(a, b);
                    cr = (double)r.range(-10, 10);
                    ci = (double)r.range(-10, 10);
                    good("Complex =", [&] { c = Complex(cr, ci); });
                    break;
                }
            }
        }
        verify("content");
    }
    void shrink(const Op& op)
    {
        Rng r(mix2(op.a[1], op.a[2]));
        if (!ml.empty())
        {
            int at = (int)r.below(ml.size());
            good("List remove", [&] { l.remove(at); });
            ml.erase(ml.begin() + at);
        }
        if (!md.empty())
        {
            good("Deque pop_front", [&] { d.pop_front(); });
            md.erase(md.begin());
        }
        if (!ms.empty())
        {
            Elem e(std::next(ms.begin(), r.below(ms.size()))->first, 0);
            good("Set remove", [&] { s.remove(e); });
            ms.erase(e.v());
        }
        if (!mm.empty())
        {
            Elem e(std::next(mm.begin(), r.below(mm.size()))->first, 0);
            good("Dict remove", [&] { m.remove(e); });
            mm.erase(e.v());
        }
        if (mt.size() > 1)
        {
            good("Str slice", [&] { t = t.slice(1, t.size()); });
            mt = mt.substr(1);
        }
        verify("content");
    }
    void clear(const Op& op)
    {
        good("clear", [&] {
            if (op.a[0] & 1)
            {
                l.clear();
            }
            if (op.a[0] & 2)
            {
                d.clear();
            }
            if (op.a[0] & 4)
            {
                s.clear();
            }
            if (op.a[0] & 8)
            {
                m.clear();
            }
            if (op.a[0] & 16)
            {
                t = "";
                x = 0;
            } });
        if (op.a[0] & 1)
        {
            ml.clear();
        }
        if (op.a[0] & 2)
        {
            md.clear();
        }
        if (op.a[0] & 4)
        {
            ms.clear();
        }
        if (op.a[0] & 8)
        {
            mm.clear();
        }
        if (op.a[0] & 16)
        {
            mt.clear();
            mx = 0;
        }
        verify("content");
    }
    // an index outside [lo, hi)
    static int outside(Rng& r, int lo, int hi)
    {
        while (true)
        {
            const i64 around = (i64)hi - lo + 2;
            i64 v = r.chance(35)   ? (i64)hi + (i64)r.below(3)
                    : r.chance(50) ? (i64)lo - 1 - (i64)r.below(3)
                    : r.chance(50) ? (r.chance(50) ? (i64)hi + (i64)r.below(around) : (i64)lo - 1 - (i64)r.below(around))
                                   : FAR[r.below(6)];
            if ((v < lo || v >= hi) && v >= INT_MIN && v <= INT_MAX)
            {
                return (int)v;
            }
        }
    }

    static int negative(Rng& r)
    {
        static const int far[] = {INT_MIN, INT_MIN + 1, -(1 << 16), -(1 << 20), -(1 << 30), INT_MIN / 2};
        return r.chance(50) ? -1 : r.chance(50) ? -1 - (int)r.below(1000) : far[r.below(6)];
    }
    // a step of a slice, never 0
    static int any_step(Rng& r, int n)
    {
        static const int steps[] = {1, -1, 2, -2, 3, -3, 7, -7, INT_MAX, INT_MIN};
        int s = r.chance(70) ? steps[r.below(10)] : (int)r.range(-n - 5, n + 5);
        return s ? s : 1;
    }
    // a valid integer literal with one byte too many
    static std::string spoiled(Rng& r, int base, bool blanks_allowed)
    {
        static const char digits[] = "0123456789abcdefghijklmnopqrstuvwxyz";
        std::string s = r.chance(40) ? (r.chance(50) ? "-" : "+") : "";
        size_t sign = s.size();
        for (int k = (int)r.range(1, r.chance(20) ? r.chance(15) ? 300 : 40 : 6); k > 0; --k)
        {
            char c = digits[r.below(base)];
            s += r.chance(50) ? (char)toupper(c) : c;
        }
        while (true)
        {
            static const char near[] = ":;<=>?/.,@[`{+- \t\n\r\v\f\x10\x19\xb0\xb9\x70\x79";
            char c = r.chance(60) ? near[r.below(sizeof near - 1)] : (char)r.range(1, 255);
            const char* at = strchr(digits, c >= 'A' && c <= 'Z' ? c + 32 : c);
            if (at && at - digits < base)
            {
                continue;
            }
            size_t pos = r.below(s.size() + 1);
            if ((c == '+' || c == '-') && pos == 0 && !sign)
            {
                pos = 1;
            }
            bool blank = c == ' ' || c == '\t' || c == '\n' || c == '\r';
            if (blank && blanks_allowed && (pos == 0 || pos == s.size()))
            {
                continue;
            }
            s.insert(pos, 1, c);
            return s;
        }
    }
    // blanks, sign, digits with at most one point and at least one digit, exponent, blanks
    static bool is_decimal(const std::string& s)
    {
        size_t i = 0, digits = 0;
        auto blanks = [&] {
            while (i < s.size() && strchr(" \n\t\r", s[i]))
            {
                ++i;
            } };
        auto number = [&] {
            size_t n = 0;
            while (i < s.size() && isdigit((unsigned char)s[i]))
            {
                ++i, ++n;
            }
            return n; };
        blanks();
        i += i < s.size() && (s[i] == '+' || s[i] == '-');
        digits = number();
        if (i < s.size() && s[i] == '.')
        {
            ++i;
            digits += number();
        }
        if (!digits)
        {
            return false;
        }
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
        {
            ++i;
            i += i < s.size() && (s[i] == '+' || s[i] == '-');
            if (!number())
            {
                return false;
            }
        }
        blanks();
        return i == s.size();
    }
    // the different ways of becoming empty
    void empty_deque(Rng& r)
    {
        const u64 way = r.below(4);
        good("emptying a Deque", [&] {
            switch (way)
            {
                case 0: d.clear(); break;
                case 1:
                    while (!d.is_empty())
                    {
                        d.pop_back();
                    }
                    break;
                case 2:
                    while (!d.is_empty())
                    {
                        d.pop_front();
                    }
                    break;
                default: d = Deque<Elem>(); break;
            } });
        md.clear();
    }
    void empty_set(Rng& r)
    {
        const u64 way = r.below(7);
        good("emptying a Set", [&] {
            Set<Elem> none, same = s;
            switch (way)
            {
                case 0: s.clear(); break;
                case 1:
                    while (!s.is_empty())
                    {
                        s.pop();
                    }
                    break;
                case 2: s -= same; break;
                case 3: s ^= same; break;
                case 4: s &= none; break;
                case 5: s = none; break;
                default: s = s - s; break;
            } });
        ms.clear();
    }
    void empty_dict(Rng& r)
    {
        const u64 way = r.below(4);
        good("emptying a Dict", [&] {
            switch (way)
            {
                case 0: m.clear(); break;
                case 1:
                    while (!m.is_empty())
                    {
                        m.pop();
                    }
                    break;
                case 2:
                    for (auto& k : mm)
                    {
                        m.remove(Elem(k.first, 0));
                    }
                    break;
                default: m = Dict<Elem, Elem>(); break;
            } });
        mm.clear();
    }

    void exec(const Op& op)
    {
        Rng r(mix2(op.a[3], op.a[4]));
        switch (op.code)
        {
            case op_grow: grow(op); break;
            case op_shrink: shrink(op); break;
            case op_clear: clear(op); break;
            case op_bad_list: {
                const int n = (int)ml.size();
                Elem e(1, 1);
                int i = outside(r, -n, n);
                const List<Elem>& cl = l;
                switch (norm(op.a[0], 14))
                {
                    case 0: bad("List[] with an index out of range", [&] { (void)l[i].v(); }); break;
                    case 1: bad("const List[] with an index out of range", [&] { (void)cl[i].v(); }); break;
                    case 2: bad("List assignment through an index out of range", [&] { l[i] = e; }); break;
                    case 3: {
                        int at = outside(r, -n, n + 1);
                        bad("List.insert with an index out of range", [&] { l.insert(at, e); });
                        break;
                    }
                    case 4: bad("List.remove with an index out of range", [&] { l.remove(i); }); break;
                    case 5: {
                        int times = negative(r);
                        bad("List *= negative", [&] { l *= times; });
                        break;
                    }
                    case 6: {
                        int times = negative(r);
                        bad("List * negative", [&] { l * times; });
                        break;
                    }
                    case 7: {
                        int a = outside(r, 0, n + 1);
                        const int b = r.chance(40) ? a : n;
                        bad("List.erase with a start out of range", [&] { l.erase(a, b); });
                        break;
                    }
                    case 8: {
                        int b = outside(r, 0, n + 1), a = (int)r.below(n + 1);
                        bad("List.erase with a stop out of range", [&] { l.erase(a, b); });
                        break;
                    }
                    case 9: {
                        int a = (int)r.below(n + 1), b = a ? (int)r.below(a) : -1;
                        bad("List.erase with stop before start", [&] { l.erase(a, b); });
                        break;
                    }
                    case 10: {
                        int b = r.chance(70) ? (int)r.range(-n - 1, n) : outside(r, -n - 1, n + 1), step = any_step(r, n);
                        bad("List.slice with a start out of range", [&] { l.slice(i, b, step); });
                        break;
                    }
                    case 11: {
                        if (!n)
                        {
                            break;
                        }
                        int b = outside(r, -n - 1, n + 1), a = (int)r.range(-n, n - 1), step = any_step(r, n);
                        bad("List.slice with a stop out of range", [&] { l.slice(a, b, step); });
                        break;
                    }
                    case 12:
                        if (n)
                        {
                            int a = (int)r.range(-n, n - 1), b = (int)r.range(-n, n);
                            bad("List.slice with a zero step", [&] { l.slice(a, b, 0); });
                        }
                        break;
                    default: bad("List<Int>[] with an index out of range", [&] { (void)li[norm(op.a[1], 4) - 2].digits(); }); break;
                }
                break;
            }
            case op_bad_deque: {
                const int n = (int)md.size();
                int i = outside(r, -n, n);
                const Deque<Elem>& cd = d;
                switch (norm(op.a[0], 9))
                {
                    case 0: bad("Deque[] with an index out of range", [&] { (void)d[i].v(); }); break;
                    case 1: bad("const Deque[] with an index out of range", [&] { (void)cd[i].v(); }); break;
                    case 2: bad("Deque assignment through an index out of range", [&] { d[i] = Elem(1, 1); }); break;
                    default:
                        if (n)
                        {
                            empty_deque(r);
                        }
                        switch (norm(op.a[0], 6))
                        {
                            case 0: bad("pop_back of an empty Deque", [&] { d.pop_back(); }); break;
                            case 1: bad("pop_front of an empty Deque", [&] { d.pop_front(); }); break;
                            case 2: bad("front of an empty Deque", [&] { (void)d.front().v(); }); break;
                            case 3: bad("back of an empty Deque", [&] { (void)d.back().v(); }); break;
                            case 4: bad("const front of an empty Deque", [&] { (void)cd.front().v(); }); break;
                            default: bad("const back of an empty Deque", [&] { (void)cd.back().v(); }); break;
                        }
                        break;
                }
                break;
            }
            case op_bad_set:
                if (!ms.empty())
                {
                    empty_set(r);
                }
                switch (norm(op.a[0], 3))
                {
                    case 0: bad("min of an empty Set", [&] { s.min(); }); break;
                    case 1: bad("max of an empty Set", [&] { s.max(); }); break;
                    default: bad("pop of an empty Set", [&] { s.pop(); }); break;
                }
                break;
            case op_bad_dict: {
                i64 k = (i64)r.below(r.chance(50) ? 25 : 25 + 2 * mm.size()) - 4;
                while (mm.count(k))
                {
                    ++k;
                }
                Elem key(k, 0);
                const Dict<Elem, Elem>& cm = m;
                switch (norm(op.a[0], 7))
                {
                    case 0:
                    case 1: bad("Dict[] with a missing key", [&] { (void)m[key].v(); }); break;
                    case 2: bad("const Dict[] with a missing key", [&] { (void)cm[key].v(); }); break;
                    case 3: bad("Dict assignment through a missing key", [&] { m[key] = Elem(1, 1); }); break;
                    case 4: bad("Dict<Str,Int>[] with a missing key", [&] { (void)mi["no such key"].digits(); }); break;
                    default:
                        if (!mm.empty())
                        {
                            empty_dict(r);
                        }
                        switch (norm(op.a[1], 3))
                        {
                            case 0: bad("pop of an empty Dict", [&] { m.pop(); }); break;
                            case 1: bad("min of an empty Dict", [&] { m.min(); }); break;
                            default: bad("max of an empty Dict", [&] { m.max(); }); break;
                        }
                        break;
                }
                break;
            }
            case op_bad_str: {
                const int n = (int)mt.size();
                int i = outside(r, -n, n);
                static const char* const lits[] = {"", " ", "+", "-", "12.5", "1 2", "0x10", "--1", "+-1", "1-", "z", "12\xc3", "1e5", " - 1", "1_000", "\v1"};
                switch (norm(op.a[0], 15))
                {
                    case 0: bad("Str[] with an index out of range", [&] { (void)t[i]; }); break;
                    case 1: {
                        int b = r.chance(70) ? (int)r.range(-n - 1, n) : outside(r, -n - 1, n + 1), step = any_step(r, n);
                        bad("Str.slice with a start out of range", [&] { t.slice(i, b, step); });
                        break;
                    }
                    case 2:
                        if (n)
                        {
                            int b = outside(r, -n - 1, n + 1), a = (int)r.range(-n, n - 1), step = any_step(r, n);
                            bad("Str.slice with a stop out of range", [&] { t.slice(a, b, step); });
                        }
                        break;
                    case 3:
                        if (n)
                        {
                            int a = (int)r.range(-n, n - 1), b = (int)r.range(-n, n);
                            bad("Str.slice with a zero step", [&] { t.slice(a, b, 0); });
                        }
                        break;
                    case 4: {
                        int a = outside(r, 0, n + 1);
                        const int b = r.chance(40) ? a : n;
                        bad("Str.erase with a start out of range", [&] { t.erase(a, b); });
                        break;
                    }
                    case 5: {
                        int b = outside(r, 0, n + 1), a = (int)r.below(n + 1);
                        bad("Str.erase with a stop out of range", [&] { t.erase(a, b); });
                        break;
                    }
                    case 6: {
                        int a = (int)r.below(n + 1), b = a ? (int)r.below(a) : -1;
                        bad("Str.erase with stop before start", [&] { t.erase(a, b); });
                        break;
                    }
                    case 7: {
                        int times = negative(r);
                        bad("Str * negative", [&] { t * times; });
                        break;
                    }
                    case 8: {
                        bool keep_empty = r.chance(50);
                        bad("Str.split with an empty separator", [&] { t.split("", keep_empty); });
                        break;
                    }
                    case 9: {
                        static const int bases[] = {1, 0, -1, 37, 100, INT_MAX, INT_MIN};
                        int b = bases[r.below(7)];
                        static const char* const texts[] = {"1010", "0", "1", "", "7", "-1", "+0", " 1", "z", "00", "10", "?", "9"};
                        const Str digits(texts[r.below(13)]);
                        bad("Str.to_integer with a bad base", [&] { x = digits.to_integer(b); });
                        break;
                    }
                    case 10: {
                        static const char* const decs[] = {"", " ", ".", "+", "-.", "1e", "1e+", "e5", "1.5.2", "1 2", "--1", "+-1", "abc", "1e1.5", ".e1", "0x10", "1e5e", "infinit", "na", "1,5", "1_0", "\v1", "1.5f", "-", "+ 1", "1.e-", "5e5-"};
                        std::string lit = r.chance(60) ? decs[r.below(27)] : spoiled(r, 10, true);
                        if (is_decimal(lit))
                        {
                            break;
                        }
                        bad(fmt("Str(%s).to_decimal()", show(lit).c_str()).c_str(), [&] { volatile double x = Str(lit).to_decimal(); (void)x; });
                        break;
                    }
                    case 11:
                    case 12: {
                        int base = r.chance(40) ? 10 : (int)r.range(2, 36);
                        std::string lit = spoiled(r, base, true);
                        bad(fmt("Str(%s).to_integer(%d)", show(lit).c_str(), base).c_str(), [&] { x = Str(lit).to_integer(base); });
                        break;
                    }
                    default: {
                        const char* lit = lits[r.below(16)];
                        bad(fmt("Str(%s).to_integer()", show(lit).c_str()).c_str(), [&] { x = Str(lit).to_integer(); });
                        break;
                    }
                }
                break;
            }
            case op_bad_int: {
                static const char* const lits[] = {"", "+", "-", "abc", "12a", "1.5", " 1", "1 ", "--1", "+-5", "1-1", "0x1", "1e3", "12345678901234567890123x", "-\xff", "\t1"};
                Int zero, neg(-(int)r.range(1, r.chance(30) ? 2 : 1000)), pos((int)r.range(1, r.chance(40) ? 3 : 50));
                if (r.chance(20))
                {
                    neg = neg * Int("1000000000000000000000000000001");
                }
                switch (norm(op.a[0], 18))
                {
                    case 0:
                    case 1:
                    case 2: {
                        std::string own = r.chance(65) ? spoiled(r, 10, false) : lits[r.below(16)];
                        const char* lit = own.c_str();
                        bad(fmt("Int(%s)", show(lit).c_str()).c_str(), [&] { x = Int(lit); });
                        break;
                    }
                    case 3: bad("Int /= 0", [&] { x /= zero; }); break;
                    case 4: bad("Int %= 0", [&] { x %= zero; }); break;
                    case 5: bad("Int / 0", [&] { x = x / 0; }); break;
                    case 6: bad("Int % 0", [&] { x = x % zero; }); break;
                    case 7: bad("0 / 0", [&] { x = zero / zero; }); break;
                    case 8: bad("Int::sqrt of a negative number", [&] { x = Int::sqrt(neg); }); break;
                    case 9: bad("Int::pow(0, negative)", [&] { x = Int::pow(zero, neg); }); break;
                    case 10: bad("Int::log of 0", [&] { x = Int::log(zero, pos); }); break;
                    case 11: bad("Int::log of a negative number", [&] { x = Int::log(neg, pos); }); break;
                    case 12: {
                        int base = r.chance(50) ? 1 : 0;
                        bad("Int::log with base 1 or 0", [&] { x = Int::log(pos, base); });
                        break;
                    }
                    case 13: bad("Int::log with a negative base", [&] { x = Int::log(pos, neg); }); break;
                    case 16: bad("Int::log of 0 with a bad base", [&] { x = Int::log(zero, neg); }); break;
                    case 17: {
                        Int one = 1, m = (int)r.range(1, 50);
                        bad("Int::pow(0, negative, modulus)", [&] { x = Int::pow(zero, neg, m); });
                        break;
                    }
                    case 14: bad("factorial of a negative number", [&] { x = neg.factorial(); }); break;
                    default: {
                        int digits = std::min(negative(r), -2);
                        bad("Int::random below -1", [&] { x = Int::random(digits); });
                        break;
                    }
                }
                break;
            }
            case op_bad_fraction: {
                Fraction zero, q((int)r.range(-9, 9), (int)r.range(1, 9));
                int num = (int)r.range(-50, 50);
                switch (norm(op.a[0], 7))
                {
                    case 0: bad("Fraction with a zero denominator", [&] { f = Fraction(num, 0); }); break;
                    case 1: bad("Fraction / 0", [&] { f = f / zero; }); break;
                    case 2: bad("Fraction /= 0", [&] { f /= zero; }); break;
                    case 3: bad("Fraction % 0", [&] { f = f % zero; }); break;
                    case 4: bad("Fraction %= 0", [&] { f %= 0; }); break;
                    case 5: bad("0/1 / 0", [&] { f = zero / zero; }); break;
                    default: bad("Fraction % 0/n", [&] { f = q % Fraction(0, 7); }); break;
                }
                break;
            }
            case op_bad_complex: {
                Complex zero(r.chance(50) ? 0.0 : -0.0, r.chance(50) ? 0.0 : -0.0), q((double)r.range(-3, 3), (double)r.range(-3, 3));
                Complex by(-1 - (int)r.below(4)), im(0, r.chance(50) ? 1 : -2.5);
                switch (norm(op.a[0], 5))
                {
                    case 0: bad("Complex / 0", [&] { c = c / zero; }); break;
                    case 1: bad("Complex /= 0", [&] { c /= zero; }); break;
                    case 2: bad("q / 0 (Complex)", [&] { c = q / zero; }); break;
                    case 3: bad("Complex::pow(0, negative)", [&] { c = Complex::pow(zero, by); }); break;
                    default: bad("Complex::pow(0, imaginary)", [&] { c = Complex::pow(zero, im); }); break;
                }
                break;
            }
            case op_use: {
                // boundary requests that are valid
                const int n = (int)ml.size(), k = (int)mt.size();
                i64 got = 0, want = 0;
                good("valid boundary requests", [&] {
                    if (n)
                    {
                        got += l[0].v() + l[-n].v() + l[n - 1].v() + l[-1].v();
                        got += l.slice(0, n, 1).size() + l.slice(-n, n).size() + l.slice(n - 1, -n - 1, -1).size();
                    }
                    got += (l * 0).size() + (k ? t.slice(k - 1, -k - 1, -1).size() + t.slice(-k, k).size() : 0);
                    got += t.erase(k, k).size() + (t * 0).size();
                    if (!md.empty())
                    {
                        got += d.front().v() + d.back().v() + d[-(int)md.size()].v();
                    }
                    if (!ms.empty())
                    {
                        got += s.min().v() + s.max().v();
                    }
                    if (!mm.empty())
                    {
                        got += m.min().v() + m.max().v() + m[Elem(mm.begin()->first, 0)].v();
                    } });
                want += n ? 2 * (ml.front().v + ml.back().v) + 3 * n : 0;
                want += 2 * k + k;
                want += md.empty() ? 0 : 2 * md.front().v + md.back().v;
                want += ms.empty() ? 0 : ms.begin()->first + ms.rbegin()->first;
                want += mm.empty() ? 0 : mm.begin()->first + mm.rbegin()->first + mm.begin()->second.v;
                if (got != want)
                {
                    fail("wrong-result", "valid requests at the boundaries add up to %lld, expected %lld", (long long)got, (long long)want);
                }
                verify("operand-changed");
                break;
            }
        }
        note(mix2(ml.size(), md.size()) ^ mix2(ms.size(), mm.size()) ^ hash_str(mt));
    }
};

static std::unique_ptr<Seg> seg;
static void do_reset(const Op&) { seg.reset(new Seg); }
static void do_exec(const Op& op)
{
    if (seg)
    {
        seg->exec(op);
    }
}
static void do_finish() { seg.reset(); }

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    out.push_back(reset);
    GenFaults gf;
    static const int all[] = {F_ALLOC, F_ALLOC_STICKY, F_ALLOC_SWEEP, F_COPY, F_COMPARE};
    if (r.chance(70))
    {
        gf.rate = (int)r.range(10, 70);
        for (int k : all)
        {
            if (r.chance(60))
            {
                gf.kinds.push_back(k);
            }
        }
        gf.maxbits = (int)r.range(1, 4);
    }
    int len = (int)r.range(6, thorough ? 60 : 35);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = r.chance(35) ? op_grow : r.chance(25) ? op_shrink : r.chance(8) ? op_clear : r.chance(10) ? op_use : (int)r.range(op_bad_list, op_bad_complex);
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 20);
        }
        gf.apply(r, op);
        out.push_back(op);
    }
}

namespace sim
{
World world = {"reject", names, N_OPS, "digest of (request, outcome, injected fault, sizes and texts of all objects) over a whole history",
               "List, Deque, Set, Dict, Str, Int, Fraction and Complex", "allocator, element type (copy and comparison failures)",
               gen, do_reset, do_exec, do_finish, 3000000, 300000, 60000000};
}
