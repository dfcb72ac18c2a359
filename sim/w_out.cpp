// World: printing of every type to a simulated output device that can fail at any byte (PROP 15),
// and stream formatting state across output and input of every type (PROP 16).
#include "dev.hpp"
#include "elem.hpp"
#include <functional>
#include <locale>
#include <memory>

using namespace sim;
using namespace pyincpp;

enum Code { op_RESET, op_print, op_pair, op_rebuild, op_format_out, op_format_in, N_OPS };
static const char* const names[] = {"RESET", "print", "print_two", "rebuild", "format_out", "format_in"};

static std::string quo(const std::string& s) { return "\"" + s + "\""; }
static std::string join(const std::vector<std::string>& v, char open, char close)
{
    std::string r(1, open);
    for (size_t i = 0; i < v.size(); ++i)
    {
        r += (i ? ", " : "") + v[i];
    }
    return r + close;
}

struct Obj
{
    virtual void print(std::ostream&) const = 0;
    virtual const char* type() const = 0;
    virtual ~Obj() {}
    std::string text;
};
template <class T>
struct ObjT : Obj
{
    T v;
    const char* name;
    template <class... A>
    ObjT(const char* n, const std::string& t, const A&... a) : v(a...), name(n) { text = t; }
    void print(std::ostream& os) const override { os << v; }
    const char* type() const override { return name; }
};
typedef std::unique_ptr<Obj> P;
template <class T, class... A>
static P mk(const char* n, const std::string& t, const A&... a)
{
    return P(new ObjT<T>(n, t, a...));
}

static std::string int_text(Rng& r)
{
    std::string s = r.chance(40) ? "-" : "";
    s += (char)('1' + r.below(9));
    int n = r.chance(70) ? (int)r.below(6) : r.chance(97) ? (int)r.below(60) : r.chance(85) ? (int)r.range(60, 1500) : (int)r.range(1500, 6000);
    while (n--)
    {
        s += (char)('0' + r.below(10));
    }
    return r.chance(8) ? "0" : s;
}
static std::string str_text(Rng& r)
{
    std::string s;
    int n = r.chance(80) ? (int)r.below(8) : r.chance(97) ? (int)r.below(70) : r.chance(90) ? (int)r.range(70, 1500) : (int)r.range(1500, r.chance(80) ? 9000 : 70000);
    while (n--)
    {
        s += r.chance(90) ? (char)r.range(0x20, 0x7e) : (char)r.below(256);
    }
    if (r.chance(10))
    {
        decorate(r, s);
    }
    return s;
}
static double dbl(Rng& r)
{
    switch (r.below(4))
    {
        case 0: return (double)r.range(-20, 20);
        case 1: return (double)r.range(-100000, 100000) / 64;
        case 2: return (double)r.range(-1000000000, 1000000000) * 1e7;
        default: return (double)r.range(-1000, 1000) * 1e-9;
    }
}

static const int KINDS = 19;
static P build(Rng& r, int kind)
{
    int n = r.chance(15) ? 0 : r.chance(80) ? (int)r.range(1, 5) : r.chance(96) ? (int)r.range(6, 30) : r.chance(85) ? (int)r.range(30, 200) : (int)r.range(200, 1300);
    std::vector<std::string> t;
    switch (kind)
    {
        case 0: {
            std::string s = int_text(r);
            return mk<Int>("Int", s, s.c_str());
        }
        case 1: {
            std::string s = str_text(r);
            return mk<Str>("Str", quo(s), s);
        }
        case 2: {
            int a = (int)r.range(-5000, 5000), b = (int)r.range(1, r.chance(50) ? 6 : 90000);
            if (r.chance(25))
            {
                a = (int)r.range(-INT_MAX, INT_MAX);
                b = (int)r.range(r.chance(50) ? 1000000000 : 1, INT_MAX);
            }
            int g = std::gcd(a, b);
            return mk<Fraction>("Fraction", b / g == 1 ? fmt("%d", a / g) : fmt("%d/%d", a / g, b / g), a, b);
        }
        case 3: {
            double a = dbl(r), b = dbl(r);
            return mk<Complex>("Complex", fmt("(%g%c%gj)", a, b < 0 ? '-' : '+', b < 0 ? -b : b), a, b);
        }
        case 4: {
            std::vector<Int> v;
            for (int i = 0; i < n; ++i)
            {
                t.push_back(int_text(r));
                v.push_back(Int(t.back().c_str()));
            }
            return mk<List<Int>>("List<Int>", join(t, '[', ']'), v);
        }
        case 5: {
            std::vector<Str> v;
            for (int i = 0; i < n; ++i)
            {
                std::string s = str_text(r);
                t.push_back(quo(s));
                v.push_back(Str(s));
            }
            return mk<List<Str>>("List<Str>", join(t, '[', ']'), v);
        }
        case 6: {
            std::vector<List<int>> v;
            for (int i = 0; i < n; ++i)
            {
                std::vector<int> w;
                std::vector<std::string> u;
                for (int k = (int)r.below(4); k > 0; --k)
                {
                    w.push_back((int)r.range(-99, 99));
                    u.push_back(fmt("%d", w.back()));
                }
                v.push_back(List<int>(w));
                t.push_back(join(u, '[', ']'));
            }
            return mk<List<List<int>>>("List<List<int>>", join(t, '[', ']'), v);
        }
        case 7: {
            std::deque<int> v;
            for (int i = 0; i < n; ++i)
            {
                v.push_back((int)r.range(-9999, 9999));
                t.push_back(fmt("%d", v.back()));
            }
            return mk<Deque<int>>("Deque<int>", join(t, '<', '>'), v);
        }
        case 8: {
            std::deque<Str> v;
            for (int i = 0; i < n; ++i)
            {
                std::string s = str_text(r);
                v.push_back(Str(s));
                t.push_back(quo(s));
            }
            return mk<Deque<Str>>("Deque<Str>", join(t, '<', '>'), v);
        }
        case 9: {
            std::set<int> v;
            for (int i = 0; i < n; ++i)
            {
                v.insert((int)r.range(-50, 50));
            }
            for (int x : v)
            {
                t.push_back(fmt("%d", x));
            }
            return mk<Set<int>>("Set<int>", join(t, '{', '}'), v);
        }
        case 10: {
            std::set<std::string> v;
            std::vector<Str> w;
            for (int i = 0; i < n; ++i)
            {
                std::string s = str_text(r);
                v.insert(s);
                w.push_back(Str(s));
            }
            for (auto& s : v)
            {
                t.push_back(quo(s));
            }
            return mk<Set<Str>>("Set<Str>", join(t, '{', '}'), w.begin(), w.end());
        }
        case 11: {
            std::map<std::string, std::string> v;
            std::map<Str, Int> w;
            for (int i = 0; i < n; ++i)
            {
                std::string s = str_text(r), x = int_text(r);
                if (v.emplace(s, x).second)
                {
                    w.emplace(Str(s), Int(x.c_str()));
                }
            }
            for (auto& e : v)
            {
                t.push_back(quo(e.first) + ": " + e.second);
            }
            return mk<Dict<Str, Int>>("Dict<Str,Int>", join(t, '{', '}'), w);
        }
        case 12: {
            std::map<int, List<Int>> w;
            for (int i = 0; i < n; ++i)
            {
                std::vector<Int> x;
                std::vector<std::string> u;
                for (int k = (int)r.below(4); k > 0; --k)
                {
                    u.push_back(int_text(r));
                    x.push_back(Int(u.back().c_str()));
                }
                w.emplace(i * 3 - 5, List<Int>(x));
                t.push_back(fmt("%d: ", i * 3 - 5) + join(u, '[', ']'));
            }
            return mk<Dict<int, List<Int>>>("Dict<int,List<Int>>", join(t, '{', '}'), w);
        }
        case 13: {
            std::string s = str_text(r), x = int_text(r);
            int k = (int)r.range(-100, 100);
            return mk<Tuple<int, Str, Int>>("Tuple<int,Str,Int>", fmt("(%d, ", k) + quo(s) + ", " + x + ")", k, Str(s), Int(x.c_str()));
        }
        case 14: {
            std::string x = int_text(r);
            return mk<Tuple<Int>>("Tuple<Int>", "(" + x + ",)", Int(x.c_str()));
        }
        case 15: return mk<Tuple<>>("Tuple<>", "()");
        case 16: {
            std::vector<Elem> v;
            for (int i = 0; i < n; ++i)
            {
                i64 x = r.range(0, 999);
                v.push_back(Elem(x, 0));
                t.push_back(fmt("e%lld", (long long)x));
            }
            return mk<List<Elem>>("List<user type>", join(t, '[', ']'), v);
        }
        case 17: {
            std::map<Elem, Elem> w;
            std::map<i64, i64> v;
            for (int i = 0; i < n; ++i)
            {
                v.emplace(r.range(0, 99), r.range(0, 99));
            }
            for (auto& e : v)
            {
                w.emplace(Elem(e.first, 0), Elem(e.second, 0));
                t.push_back(fmt("e%lld: e%lld", (long long)e.first, (long long)e.second));
            }
            return mk<Dict<Elem, Elem>>("Dict<user type>", join(t, '{', '}'), w);
        }
        default: {
            i64 a = r.range(0, 99), b = r.range(0, 99);
            return mk<Tuple<Elem, Elem>>("Tuple<user type>", fmt("(e%lld, e%lld)", (long long)a, (long long)b), Elem(a, 0), Elem(b, 0));
        }
    }
}

struct Punct : std::numpunct<char>
{
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\3"; }
    char do_decimal_point() const override { return '.'; }
};

static const std::ios_base::iostate masks[] = {std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit | std::ios_base::badbit};

struct Seg
{
    static const int N = 6;
    P obj[N];

    explicit Seg(const Op& op)
    {
        for (int i = 0; i < N; ++i)
        {
            Rng r(mix2(op.a[0], i));
            obj[i] = build(r, (int)r.below(KINDS));
        }
    }
    static int norm(i64 raw, i64 n) { return (int)((u64)raw % n); }

    void healthy(int i, const char* cls)
    {
        SimOut dev;
        std::ostream os(&dev);
        must("printing to a healthy stream", [&] { obj[i]->print(os); });
        if (os.fail() || dev.got != obj[i]->text)
        {
            fail(cls, "%s prints %s, expected %s", obj[i]->type(), show(dev.got).c_str(), show(obj[i]->text).c_str());
        }
    }

    // a stream that had failed before accepts nothing, and stays failed
    void already_failed(const Op& op, std::ostream& os, SimOut& dev, int a)
    {
        dev.limit = ~0ull;
        static const std::ios_base::iostate bits[] = {std::ios_base::failbit, std::ios_base::badbit, std::ios_base::failbit | std::ios_base::badbit};
        const std::ios_base::iostate bit = bits[norm(op.a[4], 3)];
        os.setstate(bit);
        must("printing to a failed stream", [&] { obj[a]->print(os); });
        if (!dev.got.empty() || (os.rdstate() & bit) != bit)
        {
            fail("printed-to-failed-stream", "printing %s to a stream that had failed left %s on the device, stream state %d", obj[a]->type(), show(dev.got).c_str(), (int)os.rdstate());
        }
        healthy(a, "object-changed");
        probe("prints_to_a_failed_stream");
    }
    // prints a (and b) to a device with the fault of this op
    void print(const Op& op, int a, int b)
    {
        std::string text = obj[a]->text + (b >= 0 ? obj[b]->text : "");
        SimOut dev;
        bool devfault = op.fk == F_WRITE_SHORT || op.fk == F_WRITE_ERR;
        if (devfault)
        {
            dev.limit = (u64)op.fn % (text.size() + 1);
            dev.throws = op.fk == F_WRITE_ERR;
            dev.transient = norm(op.a[5], 3) == 0;
        }
        std::ostream os(&dev);
        if (norm(op.a[5], 32) == 5)
        {
            already_failed(op, os, dev, a);
            return;
        }
        os.exceptions(masks[norm(op.a[3], 3)]);
        arm(devfault ? F_NONE : op.fk, op.fn);
        Outcome o = sut_armed([&] {
            obj[a]->print(os);
            if (b >= 0)
            {
                obj[b]->print(os);
            } });
        bool fired = st.fired || dev.failed;
        disarm();
        st.faults_in_segment += fired;
        note(mix2(mix2(o.k, os.rdstate()), dev.got.size()));
        bool reported = o.k != OK || os.fail();
        if (!fired && reported)
        {
            fail("refused-valid", "printing %s to a healthy stream failed: %s %s", obj[a]->type(), kind_names[o.k], o.what.c_str());
        }
        if (o.k == LENGTH || o.k == OTHER || o.k == RTE)
        {
            fail("unexpected-exception", "printing %s: %s %s", obj[a]->type(), kind_names[o.k], o.what.c_str());
        }
        if (text.compare(0, dev.got.size(), dev.got) != 0 || dev.got.size() > text.size())
        {
            fail("not-a-prefix", "printing %s left %s on the device, which is not a prefix of %s", obj[a]->type(), show(dev.got).c_str(), show(text).c_str());
        }
        if (dev.got.size() < text.size() && !reported)
        {
            fail("unreported-loss", "printing %s left only %s on the device without reporting a failure; complete text is %s", obj[a]->type(), show(dev.got).c_str(), show(text).c_str());
        }
        healthy(a, "object-changed");
        if (b >= 0)
        {
            healthy(b, "object-changed");
        }
        if (op.a[4] % 3 == 0)
        {
            // the same stream, repaired, accepts the complete text
            dev.limit = ~0ull;
            dev.got.clear();
            os.exceptions(std::ios_base::goodbit);
            os.clear();
            must("printing again", [&] { obj[a]->print(os); });
            if (os.fail() || dev.got != obj[a]->text)
            {
                fail("object-changed", "printing %s again to the repaired stream gives %s, expected %s", obj[a]->type(), show(dev.got).c_str(), show(obj[a]->text).c_str());
            }
        }
    }

    struct Format
    {
        std::ios_base::fmtflags flags;
        std::streamsize precision;
        char fill;
        std::ios_base::iostate mask;
        std::locale loc;
        explicit Format(std::ios& s) : flags(s.flags()), precision(s.precision()), fill(s.fill()), mask(s.exceptions()), loc(s.getloc()) {}
    };
    void same_format(std::ios& s, const Format& f, const char* what, const char* type)
    {
        if (s.flags() != f.flags)
        {
            fail("format-changed", "%s %s changed the format flags from %x to %x", what, type, (unsigned)f.flags, (unsigned)s.flags());
        }
        if (s.precision() != f.precision)
        {
            fail("format-changed", "%s %s changed the precision from %d to %d", what, type, (int)f.precision, (int)s.precision());
        }
        if (s.fill() != f.fill)
        {
            fail("format-changed", "%s %s changed the fill character from '%c' to '%c'", what, type, f.fill, s.fill());
        }
        if (s.exceptions() != f.mask)
        {
            fail("format-changed", "%s %s changed the exception mask from %x to %x", what, type, (unsigned)f.mask, (unsigned)s.exceptions());
        }
        if (!(s.getloc() == f.loc))
        {
            fail("format-changed", "%s %s changed the locale", what, type);
        }
    }
    static void configure(std::ios& s, Rng& r)
    {
        static const std::locale grouped(std::locale::classic(), new Punct);
        if (r.chance(25))
        {
            s.imbue(grouped);
        }
        static const std::ios_base::fmtflags bits[] = {std::ios_base::boolalpha, std::ios_base::showbase, std::ios_base::showpoint, std::ios_base::showpos, std::ios_base::skipws, std::ios_base::uppercase};
        for (auto b : bits)
        {
            if (r.chance(35))
            {
                s.setf(b);
            }
            else if (r.chance(30))
            {
                s.unsetf(b);
            }
        }
        static const std::ios_base::fmtflags adj[] = {std::ios_base::left, std::ios_base::right, std::ios_base::internal, std::ios_base::fmtflags(0)};
        static const std::ios_base::fmtflags base[] = {std::ios_base::dec, std::ios_base::dec, std::ios_base::hex, std::ios_base::oct};
        static const std::ios_base::fmtflags flt[] = {std::ios_base::fixed, std::ios_base::scientific, std::ios_base::fmtflags(0), std::ios_base::fmtflags(0), std::ios_base::fixed | std::ios_base::scientific};
        s.setf(adj[r.below(4)], std::ios_base::adjustfield);
        s.setf(base[r.below(4)], std::ios_base::basefield);
        s.setf(flt[r.below(5)], std::ios_base::floatfield);
        s.precision(r.range(0, 20));
        static const char fills[] = " 0*_#\xff";
        s.fill(fills[r.below(6)]);
        s.exceptions(masks[r.below(3)]);
    }
    void format_out(const Op& op)
    {
        Rng r(mix2(op.a[1], op.a[2]));
        int a = norm(op.a[0], N);
        SimOut dev;
        if (op.fk == F_WRITE_SHORT || op.fk == F_WRITE_ERR)
        {
            dev.limit = (u64)op.fn % (obj[a]->text.size() + 1);
            dev.throws = op.fk == F_WRITE_ERR;
        }
        std::ostream os(&dev);
        configure(os, r);
        Format before(os);
        arm(op.fk == F_WRITE_SHORT || op.fk == F_WRITE_ERR ? F_NONE : op.fk, op.fn);
        Outcome o = sut_armed([&] { obj[a]->print(os); });
        st.faults_in_segment += st.fired || dev.failed;
        disarm();
        note(mix2(mix2(o.k, os.rdstate()), hash_str(dev.got)));
        same_format(os, before, "printing", obj[a]->type());
        // values printed afterwards look as on a stream that printed nothing before
        os.exceptions(std::ios_base::goodbit);
        os.clear();
        dev.limit = ~0ull;
        dev.got.clear();
        SimOut dev2;
        std::ostream fresh(&dev2);
        fresh.copyfmt(os);
        fresh.flags(before.flags);
        fresh.fill(before.fill);
        fresh.precision(before.precision);
        fresh.exceptions(std::ios_base::goodbit);
        os << std::setw(0);
        fresh << std::setw(0);
        for (std::ostream* s : {&os, &fresh})
        {
            *s << std::setw(9) << 42 << std::setw(12) << 3.25 << std::setw(5) << "ab" << true;
        }
        if (dev.got != dev2.got)
        {
            fail("format-changed", "after printing %s the stream prints %s instead of %s", obj[a]->type(), show(dev.got).c_str(), show(dev2.got).c_str());
        }
    }
    void format_in(const Op& op)
    {
        Rng r(mix2(op.a[1], op.a[2]));
        int type = norm(op.a[0], 4);
        static const char* const good[][4] = {{"12345", "-7", "0", "+99999999999999999999"}, {"1/2", "-3", "+4/-6", "10"}, {"1+2j", "-3.5j", "1e3", ".5-1e-2j"}, {"a line", "", "tab\tbed", "\"q\""}};
        static const char* const bad[] = {"x", "1/", "1+", "+", "1//2", "--", "", "1+2", "99999999999999/1"};
        std::string data = std::string(r.below(3), ' ') + (r.chance(60) ? good[type][r.below(4)] : bad[r.below(9)]) + (r.chance(60) ? "\n 1 2" : "");
        SimIn dev(data, (int)r.below(4), op.a[3], op.fk == F_READ_ERR ? (u64)op.fn % (data.size() + 1) : ~0ull);
        std::istream is(&dev);
        configure(is, r);
        Format before(is);
        Int i;
        Fraction f;
        Complex c;
        Str s;
        arm(op.fk == F_READ_ERR ? F_NONE : op.fk, op.fn);
        Outcome o = sut_armed([&] {
            switch (type)
            {
                case 0: is >> i; break;
                case 1: is >> f; break;
                case 2: is >> c; break;
                default: is >> s; break;
            } });
        st.faults_in_segment += st.fired || dev.errored;
        disarm();
        note(mix2(mix2(o.k, is.rdstate()), dev.consumed()));
        static const char* const tn[] = {"Int", "Fraction", "Complex", "Str"};
        same_format(is, before, "extracting", tn[type]);
    }

    void exec(const Op& op)
    {
        switch (op.code)
        {
            case op_print: print(op, norm(op.a[0], N), -1); break;
            case op_pair: print(op, norm(op.a[0], N), norm(op.a[1], N)); break;
            case op_rebuild: {
                Rng r(mix2(op.a[1], op.a[2]));
                int i = norm(op.a[0], N);
                obj[i] = build(r, (int)r.below(KINDS));
                healthy(i, "wrong-result");
                break;
            }
            case op_format_out: format_out(op); break;
            case op_format_in: format_in(op); break;
        }
    }
};

static std::unique_ptr<Seg> seg;
static void do_reset(const Op& op) { seg.reset(new Seg(op)); }
static void do_exec(const Op& op)
{
    if (seg)
    {
        seg->exec(op);
    }
}
static void do_finish() { seg.reset(); }

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    reset.a[0] = (i64)r.below(1 << 20);
    out.push_back(reset);
    GenFaults gf;
    std::vector<int> all = {F_WRITE_SHORT, F_WRITE_ERR, F_ALLOC, F_ALLOC_STICKY, F_COMPARE, F_COPY};
    if (PROP == 16)
    {
        all.push_back(F_READ_ERR);
    }
    if (r.chance(85))
    {
        gf.rate = (int)r.range(30, 90);
        for (int k : all)
        {
            if (r.chance(60))
            {
                gf.kinds.push_back(k);
            }
        }
        gf.maxbits = (int)r.range(1, 6);
    }
    int len = (int)r.range(4, thorough ? 30 : 16);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = r.chance(12) ? op_rebuild : PROP == 16 ? (r.chance(60) ? op_format_out : op_format_in) : r.chance(75) ? op_print : op_pair;
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 20);
        }
        gf.apply(r, op);
        if (op.fk == F_WRITE_SHORT || op.fk == F_WRITE_ERR || op.fk == F_READ_ERR)
        {
            op.fn = r.chance(30) ? (i64)r.below(4) : (i64)r.below(4000);
        }
        out.push_back(op);
    }
}

namespace sim
{
World world = {"out", names, N_OPS, "digest of (operation, outcome, stream state, injected fault, bytes accepted) over a whole history",
               "operator<< (and operator>>) of all nine types and std::ostream/num_put underneath", "stream device (streambuf failing at chosen bytes by short write or exception), allocator, user element type",
               gen, do_reset, do_exec, do_finish, 3000000, 200000, 40000000};
}
