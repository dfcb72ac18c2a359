// World: extraction of Int, Fraction, Complex and Str from a simulated input device.
// PROP 12: termination (C12); 13: exact values (C13); 14: destination after failure (C14).
#include "dev.hpp"
#include <algorithm>
#include <cmath>
#include <memory>
#include <pyincpp.hpp>

using namespace sim;
using pyincpp::Complex;
using pyincpp::Fraction;
using pyincpp::Int;
using pyincpp::Str;

enum Type { T_INT, T_FRAC, T_COMPLEX, T_STR, N_TYPES };
static const char* const type_names[] = {"Int", "Fraction", "Complex", "Str"};

enum Code { op_RESET, op_session, op_bytes, N_OPS };
static const char* const names[] = {"RESET", "session", "bytes"};

struct Val
{
    int type = 0;
    bool valid = false;
    bool any = false; // no opinion about the value
    std::string text; // Int (canonical), Str
    long long n = 0, d = 1;
    double re = 0, im = 0;
    size_t end = 0;
    std::string show() const
    {
        switch (type)
        {
            case T_FRAC: return fmt("%lld/%lld", n, d);
            case T_COMPLEX: return fmt("%.17g%+.17gj", re, im);
            default: return sim::show(text);
        }
    }
};

static bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static bool dig(char c) { return c >= '0' && c <= '9'; }

// [+-]?digits at s[p...], returns the end or npos
static size_t int_end(const std::string& s, size_t p)
{
    size_t q = p;
    if (q < s.size() && (s[q] == '+' || s[q] == '-'))
    {
        ++q;
    }
    size_t b = q;
    while (q < s.size() && dig(s[q]))
    {
        ++q;
    }
    return q > b ? q : std::string::npos;
}
// decimal floating literal at s[p...]
static size_t dec_end(const std::string& s, size_t p)
{
    size_t q = p, digits = 0;
    if (q < s.size() && (s[q] == '+' || s[q] == '-'))
    {
        ++q;
    }
    while (q < s.size() && dig(s[q]))
    {
        ++q;
        ++digits;
    }
    if (q < s.size() && s[q] == '.')
    {
        ++q;
        while (q < s.size() && dig(s[q]))
        {
            ++q;
            ++digits;
        }
    }
    if (!digits)
    {
        return std::string::npos;
    }
    if (q < s.size() && (s[q] == 'e' || s[q] == 'E'))
    {
        size_t e = q + 1;
        if (e < s.size() && (s[e] == '+' || s[e] == '-'))
        {
            ++e;
        }
        size_t b = e;
        while (e < s.size() && dig(s[e]))
        {
            ++e;
        }
        if (e == b)
        {
            return std::string::npos; // an exponent without digits spoils the literal
        }
        q = e;
    }
    return q;
}
static long long gcdll(long long a, long long b) { return b ? gcdll(b, a % b) : (a < 0 ? -a : a); }

// reference reader: next token (or line) of the given type in s from pos
static Val reference(int type, const std::string& s, size_t pos)
{
    Val v;
    v.type = type;
    if (type == T_STR)
    {
        size_t nl = s.find('\n', pos);
        v.valid = pos < s.size();
        v.text = nl == std::string::npos ? s.substr(pos) : s.substr(pos, nl - pos);
        v.end = nl == std::string::npos ? s.size() : nl + 1;
        return v;
    }
    while (pos < s.size() && space(s[pos]))
    {
        ++pos;
    }
    size_t e = pos;
    while (e < s.size() && !space(s[e]))
    {
        ++e;
    }
    v.end = e;
    std::string t = s.substr(pos, e - pos);
    if (t.empty())
    {
        return v;
    }
    if (type == T_INT)
    {
        if (int_end(t, 0) == t.size())
        {
            v.valid = true;
            size_t b = t[0] == '+' || t[0] == '-';
            size_t z = t.find_first_not_of('0', b);
            v.text = z == std::string::npos ? "0" : (t[0] == '-' ? "-" : "") + t.substr(z);
        }
        return v;
    }
    // control characters count as blanks for Fraction and Complex: no opinion
    for (char c : s.substr(0, e))
    {
        v.any |= (unsigned char)c < 0x20 && !space(c);
    }
    if (type == T_FRAC)
    {
        auto range = [](const std::string& x, long long& r) {
            if (x.size() > 12)
            {
                r = 0;
                size_t z = x.find_first_not_of("+-0");
                if (z != std::string::npos && x.size() - z > 11)
                {
                    return false;
                }
                r = z == std::string::npos ? 0 : atoll(x.substr(z).c_str()) * (x[0] == '-' ? -1 : 1);
            }
            else
            {
                r = atoll(x.c_str());
            }
            return r >= INT_MIN && r <= INT_MAX;
        };
        size_t a = int_end(t, 0);
        if (a == std::string::npos)
        {
            return v;
        }
        long long n, d = 1;
        bool ok = range(t.substr(0, a), n);
        if (a < t.size())
        {
            if (t[a] != '/' || int_end(t, a + 1) != t.size())
            {
                return v;
            }
            ok &= range(t.substr(a + 1), d);
        }
        if (!ok || d == 0)
        {
            return v;
        }
        long long g = gcdll(n, d);
        v.n = n / g * (d < 0 ? -1 : 1);
        v.d = (d < 0 ? -d : d) / g;
        v.valid = v.n <= INT_MAX && v.d <= INT_MAX; // otherwise the value is not representable
        return v;
    }
    size_t a = dec_end(t, 0);
    if (a == std::string::npos)
    {
        return v;
    }
    double x = strtod(t.substr(0, a).c_str(), nullptr);
    bool finite = std::isfinite(x);
    if (a == t.size())
    {
        v.re = x;
        v.valid = finite;
        return v;
    }
    if (t[a] == 'j' && a + 1 == t.size())
    {
        v.im = x;
        v.valid = finite;
        return v;
    }
    if (t[a] != '+' && t[a] != '-')
    {
        return v;
    }
    size_t b = dec_end(t, a);
    if (b == std::string::npos || b + 1 != t.size() || t[b] != 'j')
    {
        return v;
    }
    double y = strtod(t.substr(a, b - a).c_str(), nullptr);
    v.re = x;
    v.im = y;
    v.valid = finite && std::isfinite(y);
    return v;
}

// ---------------------------------------------------------------- token generator
static std::string digits(Rng& r, int n)
{
    std::string s;
    for (int i = 0; i < n; ++i)
    {
        s += (char)('0' + r.below(10));
    }
    return s;
}
static std::string sign(Rng& r) { return r.chance(60) ? "" : r.chance(70) ? "-" : "+"; }
static std::string dec(Rng& r)
{
    std::string s;
    switch (r.below(5))
    {
        case 0: s = digits(r, (int)r.range(1, 6)); break;
        case 1: s = digits(r, (int)r.range(1, 4)) + "." + digits(r, (int)r.range(0, 6)); break;
        case 2: s = "." + digits(r, (int)r.range(1, 5)); break;
        case 3: s = digits(r, 1) + "." + digits(r, (int)r.range(1, 17)); break;
        default: s = digits(r, (int)r.range(1, 20)); break;
    }
    if (r.chance(15))
    {
        s += std::string(r.chance(50) ? "e" : "E") + sign(r) + digits(r, (int)r.range(1, 2));
    }
    return s;
}
static std::string token(Rng& r, int type)
{
    switch (type)
    {
        case T_INT: return sign(r) + digits(r, r.chance(70) ? (int)r.range(1, 9) : r.chance(97) ? (int)r.range(10, 200) : r.chance(50) ? (int)((64 << r.below(8)) + r.range(-1, 1)) : (int)r.range(200, 5000));
        case T_FRAC: {
            static const char* const edge[] = {"2147483647", "-2147483647", "-2147483648", "2147483648", "-2147483649", "99999999999", "99999999999999999999999", "0", "-0", "0/5", "5/0", "0/0", "1/-2147483647"};
            if (r.chance(12))
            {
                return edge[r.below(13)];
            }
            auto part = [&] { return sign(r) + (r.chance(15) ? fmt("%d", (int)r.range(1000000000, INT_MAX)) : digits(r, (int)r.range(1, 9))); };
            std::string s = part();
            if (r.chance(65))
            {
                s += "/" + part();
            }
            return s;
        }
        case T_COMPLEX: {
            static const char* const edge[] = {"1e999", "1e999j", "1+1e999j", "0j", "-0j", "1e-400", "1.5.5j", "1 j", "1+2 j", "+.5-.5j", "1.-2.j", "1e5", "1e+2j", "1+2jj", "1j2", "(1+2j)", "1+2", "1-2i"};
            if (r.chance(12))
            {
                return edge[r.below(18)];
            }
            switch (r.below(4))
            {
                case 0: return sign(r) + dec(r);
                case 1: return sign(r) + dec(r) + "j";
                default: return sign(r) + dec(r) + (r.chance(50) ? "+" : "-") + dec(r) + "j";
            }
        }
        default: {
            std::string s;
            int n = (int)r.range(0, r.chance(20) ? r.chance(5) ? 5000 : 90 : 12);
            for (int i = 0; i < n; ++i)
            {
                s += r.chance(80) ? (char)r.range(0x20, 0x7e) : (char)r.below(256);
                if (s.back() == '\n')
                {
                    s.back() = '.';
                }
            }
            if (r.chance(25))
            {
                decorate(r, s);
            }
            return s;
        }
    }
}
static void mutate(Rng& r, std::string& t)
{
    static const char junk[] = "+-./jeE0x1z, \"()|%9\x7f\xb2\xff:;_'`iIJ\\*^~#$&=<>?@[]{}!dDfFlLuUpPnN+-./jeE0";
    int n = (int)r.range(1, 2);
    while (n--)
    {
        size_t p = r.below(t.size() + 1);
        switch (r.below(5))
        {
            case 0: t.insert(t.begin() + p, junk[r.below(sizeof junk)]); break; // may insert a NUL
            case 1:
                if (p < t.size())
                {
                    t.erase(p, 1);
                }
                break;
            case 2:
                if (p < t.size())
                {
                    t[p] = junk[r.below(sizeof junk - 1)];
                }
                break;
            case 3: t += junk[r.below(sizeof junk - 1)]; break;
            default:
                if (p < t.size())
                {
                    t.insert(t.begin() + p, t[p]);
                }
                break;
        }
    }
}
static std::string blanks(Rng& r)
{
    static const char ws[] = " \t\n\v\f\r";
    std::string s;
    int n = r.chance(75) ? 1 : (int)r.range(1, 6);
    while (n--)
    {
        s += r.chance(60) ? ' ' : r.chance(60) ? '\n' : ws[r.below(6)];
    }
    return s;
}

struct Seg
{
    Int di;
    Fraction df;
    Complex dc;
    Str ds;
    Val cur[N_TYPES];

    Seg()
    {
        for (int t = 0; t < N_TYPES; ++t)
        {
            cur[t].type = t;
        }
        cur[T_INT].text = "0";
    }
    Val read(int type)
    {
        Val v;
        v.type = type;
        must("reading the destination", [&] {
            switch (type)
            {
                case T_INT: {
                    std::ostringstream o;
                    o << di;
                    Out out;
                    v.text = o.str();
                    break;
                }
                case T_FRAC:
                    v.n = df.numerator();
                    v.d = df.denominator();
                    break;
                case T_COMPLEX:
                    v.re = dc.real();
                    v.im = dc.imag();
                    break;
                default: {
                    std::string s(ds.begin(), ds.end());
                    Out out;
                    v.text = s;
                }
            } });
        return v;
    }
    static bool same(const Val& a, const Val& b)
    {
        switch (a.type)
        {
            case T_FRAC: return a.n == b.n && a.d == b.d;
            case T_COMPLEX: return memcmp(&a.re, &b.re, sizeof a.re) == 0 && memcmp(&a.im, &b.im, sizeof a.im) == 0;
            default: return a.text == b.text;
        }
    }
    void verify_others(int type, const char* cls)
    {
        for (int t = 0; t < N_TYPES; ++t)
        {
            if (t != type && !same(read(t), cur[t]))
            {
                fail(cls, "extracting into %s changed another object (%s)", type_names[type], type_names[t]);
            }
        }
    }
    void extract(std::istream& is, int type)
    {
        switch (type)
        {
            case T_INT: is >> di; break;
            case T_FRAC: is >> df; break;
            case T_COMPLEX: is >> dc; break;
            default: is >> ds; break;
        }
    }

    // one extraction from a stream; returns whether the stream can be read further
    bool step(std::istream& is, SimIn& dev, int type, int fk, i64 fn, std::ios_base::iostate mask, bool recovering = false)
    {
        const bool values = PROP == 13 || recovering, destination = PROP != 12 && PROP != 13;
        size_t pos = dev.consumed();
        Val want = reference(type, dev.data, pos);
        Val old = cur[type];
        arm(fk, fn);
        Outcome o = sut_armed([&] { extract(is, type); });
        bool alloc_fault = st.fired && (fk == F_ALLOC || fk == F_ALLOC_STICKY);
        bool dev_fault = dev.errored;
        bool injected = st.fired;
        disarm();
        if (injected)
        {
            ++st.faults_in_segment;
        }
        bool failed = o.k != OK || is.fail();
        note(mix2(mix2(o.k, failed), type));
        if (o.k == LENGTH || o.k == OTHER || (o.k == IOS && !mask) || (o.k == BADALLOC && !alloc_fault) || (o.k == DEVICE && !dev_fault))
        {
            fail("unexpected-exception", "%s: %s", kind_names[o.k], o.what.c_str());
        }
        Val now = read(type);
        const std::string rest = dev.data.substr(pos, 120);
        if (!failed)
        {
            if (values && !want.any && !want.valid)
            {
                fail("accepted-invalid", "extracting %s from %s at %zu gave %s without reporting an error", type_names[type], show(rest).c_str(), pos, now.show().c_str());
            }
            if (values && !want.any && !same(now, want))
            {
                fail("wrong-result", "extracting %s from %s gave %s, expected %s", type_names[type], show(rest).c_str(), now.show().c_str(), want.show().c_str());
            }
            if (values && dev_fault && dev.error_at <= want.end && !want.any)
            {
                // the device failed at or before the character that ends the token
                fail("accepted-invalid", "extracting %s from %s succeeded although the device failed inside the token", type_names[type], show(rest).c_str());
            }
            if (values && !want.any && dev.consumed() != want.end)
            {
                fail("wrong-position", "extracting %s from %s consumed up to %zu, the token ends at %zu", type_names[type], show(rest).c_str(), dev.consumed(), want.end);
            }
            cur[type] = now;
        }
        else
        {
            if (values && want.valid && !injected && !dev_fault)
            {
                fail("refused-valid", "extracting %s from %s failed: %s", type_names[type], show(rest).c_str(), o.k == OK ? "stream state" : o.what.c_str());
            }
            if (destination && type != T_STR && !same(now, old))
            {
                fail("destination-changed", "a failed extraction of %s from %s left %s in the destination, which held %s", type_names[type], show(rest).c_str(), now.show().c_str(), old.show().c_str());
            }
            cur[type] = now;
        }
        if (PROP != 12)
        {
            verify_others(type, "destination-changed");
        }
        return !failed;
    }
    void refused(std::istream& is, SimIn& dev, int type)
    {
        const size_t pos = dev.consumed();
        Outcome o = sut_armed([&] { extract(is, type); });
        if (o.k == LENGTH || o.k == OTHER || o.k == BADALLOC || o.k == DEVICE || o.k == IOS)
        {
            fail("unexpected-exception", "%s: %s", kind_names[o.k], o.what.c_str());
        }
        if (PROP == 13 && ((o.k == OK && !is.fail()) || dev.consumed() != pos))
        {
            fail("read-from-failed-stream", "extracting %s from a stream that had failed %s", type_names[type], o.k == OK && !is.fail() ? "succeeded" : "consumed input");
        }
        if (PROP == 14 && type != T_STR && !same(read(type), cur[type]))
        {
            fail("destination-changed", "extracting %s from a stream that had failed left %s in the destination", type_names[type], read(type).show().c_str());
        }
        cur[type] = read(type);
        probe("extractions_from_a_failed_stream");
    }
    // a later extraction into the same object from a good stream works
    void recover(Rng& r, int type)
    {
        std::string t;
        do
        {
            t = token(r, type);
        } while (type != T_STR ? !reference(type, t, 0).valid : t.empty());
        SimIn dev(t + (r.chance(50) ? "\n" : ""), 0, 0, ~0ull);
        std::istream is(&dev);
        if (!step(is, dev, type, F_NONE, 0, std::ios_base::goodbit, PROP != 12))
        {
            if (PROP == 12)
            {
                return;
            }
            fail("refused-valid", "extraction after a failure does not work");
        }
    }

    void session(const Op& op)
    {
        Rng r(mix2(op.a[0], op.a[1]));
        int n = 1 + (int)((u64)op.a[2] % (op.a[2] % 16 == 3 ? 30 : 6));
        int bad = (int)((u64)op.a[3] % 100);
        std::vector<int> types;
        std::string data;
        if (r.chance(20))
        {
            data += blanks(r);
        }
        int only = r.chance(30) ? (int)r.below(3) : -1;
        for (int t = 0; t < n; ++t)
        {
            int ty = only >= 0 ? only : (int)r.below(r.chance(25) ? 4 : 3);
            std::string tok = token(r, ty);
            if ((int)r.below(100) < bad)
            {
                mutate(r, tok);
            }
            data += tok;
            data += ty == T_STR ? std::string("\n") : t + 1 == n && r.chance(50) ? std::string() : blanks(r);
            types.push_back(r.chance(95) ? ty : (int)r.below(4));
        }
        if (op.fk == F_READ_EOF && !data.empty())
        {
            size_t cut = (u64)op.fn % data.size();
            data.resize(cut);
            count_fault(F_READ_EOF);
        }
        size_t err = op.fk == F_READ_ERR ? (u64)op.fn % (data.size() + 1) : ~0ull;
        int chunk = op.a[4] % 3 == 0 ? 0 : 1 + (int)((u64)op.a[4] % 7);
        SimIn dev(data, chunk, op.a[1], err);
        dev.sticky = op.a[1] % 2;
        std::istream is(&dev);
        static const std::ios_base::iostate masks[] = {std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit, std::ios_base::failbit | std::ios_base::badbit};
        std::ios_base::iostate mask = PROP == 13 ? std::ios_base::goodbit : masks[(u64)op.a[5] % 4];
        is.exceptions(mask);
        if (r.chance(8))
        {
            // an earlier user of the stream left it failed: nothing may be read until the state is cleared
            is.exceptions(std::ios_base::goodbit);
            is.setstate(r.chance(60) ? std::ios_base::failbit : r.chance(50) ? std::ios_base::badbit : std::ios_base::failbit | std::ios_base::badbit);
            refused(is, dev, types[0]);
            is.clear();
            is.exceptions(mask);
        }
        bool alloc = op.fk == F_ALLOC || op.fk == F_ALLOC_STICKY;
        int victim = (int)((u64)op.a[5] / 4 % n);
        for (int t = 0; t < n; ++t)
        {
            bool here = alloc && t == victim;
            if (!step(is, dev, types[t], here ? op.fk : F_NONE, op.fn, mask))
            {
                recover(r, types[t]);
                return;
            }
        }
        probe("sessions_read_to_the_end");
        if (r.chance(60))
        {
            // reading past the last token
            int ty = types.back();
            if (!step(is, dev, ty, F_NONE, 0, mask))
            {
                recover(r, ty);
            }
        }
    }

    // arbitrary bytes, repeated extraction with and without clearing the stream
    void bytes(const Op& op)
    {
        Rng r(mix2(op.a[0], op.a[1]));
        std::string data;
        int n = (int)((u64)op.a[2] % (op.a[3] % 32 == 5 ? 3000 : 60));
        static const char likely[] = " \n\t0123456789+-/j.eE";
        for (int i = 0; i < n; ++i)
        {
            data += r.chance(80) ? likely[r.below(sizeof likely - 1)] : (char)r.below(256);
        }
        if (r.chance(10))
        {
            data = std::string(n, ' ');
        }
        if (op.fk == F_READ_EOF && !data.empty())
        {
            data.resize((u64)op.fn % data.size());
            count_fault(F_READ_EOF);
        }
        size_t err = op.fk == F_READ_ERR ? (u64)op.fn % (data.size() + 1) : ~0ull;
        SimIn dev(data, op.a[4] % 3 == 0 ? 0 : 1 + (int)((u64)op.a[4] % 7), op.a[1], err);
        dev.sticky = op.a[1] % 2;
        std::istream is(&dev);
        static const std::ios_base::iostate masks[] = {std::ios_base::goodbit, std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit};
        is.exceptions(masks[(u64)op.a[5] % 4]);
        if (op.a[5] % 7 == 0)
        {
            is.unsetf(std::ios_base::skipws);
        }
        bool clears = op.a[3] % 2;
        int rounds = 3 + (int)((u64)op.a[3] % 8);
        for (int k = 0; k < rounds; ++k)
        {
            int type = (int)r.below(4);
            arm(op.fk == F_ALLOC || op.fk == F_ALLOC_STICKY ? op.fk : F_NONE, op.fn);
            Outcome o = sut_armed([&] { extract(is, type); });
            u64 steps = st.steps;
            if (st.fired)
            {
                ++st.faults_in_segment;
            }
            disarm();
            if (o.k == LENGTH || o.k == OTHER)
            {
                fail("unexpected-exception", "%s: %s", kind_names[o.k], o.what.c_str());
            }
            if (steps > 50000 + 400 * data.size())
            {
                fail("hang", "extracting %s from %zu bytes took %llu steps", type_names[type], data.size(), (unsigned long long)steps);
            }
            note(mix2(mix2(o.k, is.rdstate()), dev.consumed()));
            cur[type] = read(type);
            if (clears)
            {
                is.clear();
            }
        }
        if (dev.errored)
        {
            ++st.faults_in_segment;
        }
        for (int t = 0; t < N_TYPES; ++t)
        {
            cur[t] = read(t);
        }
    }
};

static std::unique_ptr<Seg> seg;
static void do_reset(const Op&) { seg.reset(new Seg()); }
static void do_exec(const Op& op)
{
    if (!seg)
    {
        return;
    }
    if (op.code == op_session)
    {
        seg->session(op);
    }
    else
    {
        seg->bytes(op);
    }
}
static void do_finish() { seg.reset(); }

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    out.push_back(reset);
    GenFaults gf;
    static const int all[] = {F_READ_EOF, F_READ_ERR, F_ALLOC, F_ALLOC_STICKY};
    if (r.chance(75))
    {
        gf.rate = (int)r.range(20, 80);
        for (int k : all)
        {
            if (r.chance(60))
            {
                gf.kinds.push_back(k);
            }
        }
        gf.maxbits = (int)r.range(2, 7);
    }
    int bad = r.chance(30) ? 0 : (int)r.range(5, 60);
    int len = (int)r.range(3, thorough ? 24 : 12);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = PROP == 12 && r.chance(70) ? op_bytes : op_session;
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 20);
        }
        if (op.code == op_session)
        {
            op.a[3] = bad;
        }
        gf.apply(r, op);
        if (op.fk == F_READ_EOF || op.fk == F_READ_ERR)
        {
            op.fn = (i64)r.below(200);
        }
        out.push_back(op);
    }
}

namespace sim
{
World world = {"stream", names, N_OPS, "digest of (extraction, outcome, stream state, injected fault, consumed bytes) over a whole history",
               "operator>> of Int, Fraction, Complex, Str; std::istream, num_get and getline underneath", "stream device (streambuf with chunked delivery, end of file and errors at chosen positions), allocator",
               gen, do_reset, do_exec, do_finish, 3000000, 200000, 40000000};
}
