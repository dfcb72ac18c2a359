// World: a journal of library values on a simulated disk with crashes, torn, lost and damaged sectors (C17).
#include "dev.hpp"
#include <algorithm>
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
#include <memory>
#include <numeric>
#include <pyincpp.hpp>
#include <sstream>

using namespace sim;
using pyincpp::Complex;
using pyincpp::Fraction;
using pyincpp::Int;
using pyincpp::Str;
typedef boost::multiprecision::cpp_int Ref;
typedef std::string S;

enum Code { op_RESET, op_append, op_append_many, op_commit, op_recover, op_crash, op_full, N_OPS };
static const char* const names[] = {"RESET", "append", "append_many", "commit", "recover", "crash", "disk_full"};

// ---------------------------------------------------------------- simulated disk file
// Bytes below `durable` survive a crash; bytes above are in the page cache only.
struct SimDisk : std::streambuf
{
    S cache;
    size_t durable = 0;
    size_t capacity = ~0ull;
    i64 fail_in = -1; // device writes until an injected error
    bool fail_throws = false, fail_sync = false;
    bool failed = false;
    char area[64];
    int buffered;

    explicit SimDisk(int buf)
        : buffered(buf)
    {
        reset_area();
    }
    void reset_area() { setp(area, area + buffered); }
    // hands bytes to the device; false when it refuses some of them
    bool device_write(const char* s, size_t n)
    {
        if (fail_in >= 0 && fail_in-- == 0)
        {
            failed = true;
            count_fault(fail_throws ? F_WRITE_ERR : F_WRITE_SHORT);
            Out out;
            cache.append(s, n / 2);
            if (fail_throws)
            {
                st.depth = 0;
                throw DeviceFault();
            }
            return false;
        }
        size_t room = capacity > cache.size() ? capacity - cache.size() : 0;
        Out out;
        cache.append(s, std::min(n, room));
        if (n > room)
        {
            failed = true;
            count_fault(F_WRITE_SHORT);
            return false;
        }
        return true;
    }
    bool drain()
    {
        size_t n = pptr() - pbase();
        S tmp;
        {
            Out out;
            tmp.assign(pbase(), n);
        }
        reset_area();
        return n == 0 || device_write(tmp.data(), n);
    }
    int_type overflow(int_type c) override
    {
        if (!drain())
        {
            return traits_type::eof();
        }
        if (!traits_type::eq_int_type(c, traits_type::eof()))
        {
            if (buffered)
            {
                *pptr() = traits_type::to_char_type(c);
                pbump(1);
            }
            else
            {
                char ch = traits_type::to_char_type(c);
                if (!device_write(&ch, 1))
                {
                    return traits_type::eof();
                }
            }
        }
        return traits_type::not_eof(c);
    }
    int sync() override
    {
        if (!drain())
        {
            return -1;
        }
        if (fail_sync)
        {
            fail_sync = false;
            failed = true;
            count_fault(F_FLUSH);
            return -1;
        }
        return 0;
    }
    void fsync() { durable = cache.size(); }
    void rewind(size_t n) // ftruncate
    {
        cache.resize(n);
        durable = std::min(durable, n);
        reset_area();
    }
};

// ---------------------------------------------------------------- records
struct Rec
{
    char type; // I F C S
    S text;    // Int: decimal; Str: content
    int num = 0, den = 1;
    double re = 0, im = 0;
    S show() const
    {
        switch (type)
        {
            case 'I': return "Int " + text;
            case 'F': return fmt("Fraction %d/%d", num, den);
            case 'C': return fmt("Complex %.17g%+.17gj", re, im);
            default: return "Str " + sim::show(text);
        }
    }
    bool operator==(const Rec& o) const
    {
        return type == o.type && (type == 'I' || type == 'S' ? text == o.text : type == 'F' ? num == o.num && den == o.den
                                                                                        : re == o.re && im == o.im);
    }
};
static double dbl(Rng& r)
{
    switch (r.below(5))
    {
        case 0: return (double)r.range(-20, 20);
        case 1: return (double)r.range(-100000, 100000) / 640;
        case 2: return std::ldexp((double)(i64)r.next(), (int)r.range(-1140, 960));
        case 3: return 1.0 / (double)r.range(1, 1000);
        default: return r.chance(50) ? 0.1 : 1e300 * (double)r.range(-5, 5);
    }
}
static Rec make(i64 a, i64 b)
{
    Rng r(mix2(a, b));
    Rec c;
    c.type = "IFCS"[r.below(4)];
    switch (c.type)
    {
        case 'I': {
            int n = r.chance(70) ? (int)r.range(1, 12) : r.chance(92) ? (int)r.range(1, 90) : r.chance(93) ? (int)r.range(90, 1500) : (int)r.range(1500, 9000);
            c.text = r.chance(40) ? "-" : "";
            c.text += (char)('1' + r.below(9));
            while (--n > 0)
            {
                c.text += r.chance(30) ? '0' : (char)('0' + r.below(10));
            }
            if (r.chance(8))
            {
                c.text = "0";
            }
            break;
        }
        case 'F': {
            static const int special[] = {INT_MAX, -INT_MAX, 0, 1, -1, 10};
            int n = r.chance(25) ? special[r.below(6)] : (int)r.range(-5000, 5000), d = r.chance(15) ? INT_MAX : (int)r.range(1, 5000);
            if (r.chance(25)) // as many digits as there can be, above and below
            {
                n = (int)r.range(-INT_MAX, INT_MAX);
                d = (int)r.range(r.chance(50) ? 1000000000 : 1, INT_MAX);
            }
            int g = std::gcd(n, d);
            c.num = n / g;
            c.den = d / g;
            break;
        }
        case 'C':
            c.re = dbl(r);
            c.im = dbl(r);
            break;
        default: {
            int n = r.chance(70) ? (int)r.below(12) : r.chance(92) ? (int)r.below(80) : r.chance(94) ? (int)r.below(1500) : (int)r.range(1500, 9000);
            while (n-- > 0)
            {
                char ch = r.chance(85) ? (char)r.range(0x20, 0x7e) : (char)r.below(256);
                c.text += ch == '\n' ? '"' : ch;
            }
            // bytes that mean something to terminals, editors and other readers, at either end of the line
            static const char odd[] = {'\r', '\t', ' ', '\0', '\x1a', '\x04', '\x08', '\x0b', '\x0c', '\x1b', '\x7f', '\\', '#', '"', '\'', (char)0xff, (char)0xef, (char)0x85, (char)0xa0};
            if (r.chance(6))
            {
                decorate(r, c.text);
            }
            const bool longer = c.text.size() > 300;
            if (r.chance(longer ? 60 : 25))
            {
                c.text += odd[longer && r.chance(50) ? r.below(3) : r.below(sizeof odd)];
            }
            if (r.chance(longer ? 25 : 8))
            {
                c.text.insert(c.text.begin(), odd[r.below(sizeof odd)]);
            }
            break;
        }
    }
    return c;
}

// strict reading of what a piece of the journal spells
static bool spells(char type, const S& tok, Rec& out)
{
    out = Rec();
    out.type = type;
    size_t i = 0;
    auto digits = [&](S& d) {
        size_t from = i;
        while (i < tok.size() && tok[i] >= '0' && tok[i] <= '9')
        {
            d += tok[i++];
        }
        return i > from;
    };
    auto sign = [&] { return i < tok.size() && (tok[i] == '-' || tok[i] == '+') ? tok[i++] : '+'; };
    if (type == 'I')
    {
        char s = sign();
        S d;
        if (!digits(d) || i != tok.size())
        {
            return false;
        }
        size_t z = d.find_first_not_of('0');
        out.text = z == S::npos ? "0" : (s == '-' ? "-" : "") + d.substr(z);
        return true;
    }
    if (type == 'F')
    {
        i64 v[2] = {0, 1};
        int parts = 0;
        while (true)
        {
            char s = sign();
            S d;
            if (!digits(d) || d.size() > 18)
            {
                return false;
            }
            v[parts] = (s == '-' ? -1 : 1) * atoll(d.c_str());
            if (v[parts] > INT_MAX || v[parts] < INT_MIN)
            {
                return false;
            }
            ++parts;
            if (i == tok.size())
            {
                break;
            }
            if (parts == 2 || tok[i++] != '/')
            {
                return false;
            }
        }
        if (v[1] == 0)
        {
            return false;
        }
        if (v[1] < 0)
        {
            v[0] = -v[0];
            v[1] = -v[1];
        }
        i64 g = std::gcd(v[0], v[1]);
        if (v[0] / g > INT_MAX || v[1] / g > INT_MAX)
        {
            return false;
        }
        out.num = (int)(v[0] / g);
        out.den = (int)(v[1] / g);
        return true;
    }
    if (type == 'C')
    {
        auto number = [&](double& v) {
            size_t from = i;
            sign();
            S d;
            bool any = digits(d);
            if (i < tok.size() && tok[i] == '.')
            {
                ++i;
                any = digits(d) || any;
            }
            if (!any)
            {
                return false;
            }
            if (i < tok.size() && (tok[i] == 'e' || tok[i] == 'E'))
            {
                ++i;
                sign();
                S e;
                if (!digits(e))
                {
                    return false;
                }
            }
            v = strtod(tok.substr(from, i - from).c_str(), nullptr);
            return !std::isinf(v);
        };
        double a;
        if (!number(a))
        {
            return false;
        }
        if (i == tok.size())
        {
            out.re = a;
            return true;
        }
        if (tok[i] == 'j')
        {
            out.im = a;
            return i + 1 == tok.size();
        }
        if (tok[i] != '+' && tok[i] != '-')
        {
            return false;
        }
        double b;
        if (!number(b) || i + 1 != tok.size() || tok[i] != 'j')
        {
            return false;
        }
        out.re = a;
        out.im = b;
        return true;
    }
    out.text = tok;
    return true;
}

struct Seg
{
    std::unique_ptr<SimDisk> disk;
    std::unique_ptr<std::ostream> os;
    std::vector<Rec> acked, pending;
    S want; // bytes of acked and pending records
    size_t acked_bytes = 0;
    int sector, buf;

    explicit Seg(const Op& op)
    {
        static const int sectors[] = {1, 4, 8, 16, 64};
        static const int bufs[] = {0, 1, 7, 32, 64};
        sector = sectors[(u64)op.a[0] % 5];
        buf = bufs[(u64)op.a[1] % 5];
        open("");
    }
    void open(const S& content)
    {
        os.reset();
        disk.reset(new SimDisk(buf));
        disk->cache = content;
        disk->durable = content.size();
        os.reset(new std::ostream(disk.get()));
        os->precision(17);
    }

    // the writer: one record
    void write(const Rec& c)
    {
        std::ostream& o = *os;
        o << c.type << ' ';
        switch (c.type)
        {
            case 'I': o << Int(c.text.c_str()); break;
            case 'F': o << Fraction(c.num, c.den); break;
            case 'C': o << Complex(c.re, c.im); break;
            default: o << Str(c.text); break;
        }
        o << '\n';
    }
    static S line(const Rec& c)
    {
        S s(1, c.type);
        s += ' ';
        switch (c.type)
        {
            case 'I': s += c.text; break;
            case 'F': s += c.den == 1 ? fmt("%d", c.num) : fmt("%d/%d", c.num, c.den); break;
            case 'C': s += fmt("(%.17g%c%.17gj)", c.re, c.im < 0 ? '-' : '+', std::fabs(c.im)); break;
            default: s += "\"" + c.text + "\""; break;
        }
        return s + "\n";
    }
    // forgets everything after the last acknowledged record
    void roll_back()
    {
        os->clear();
        disk->capacity = ~0ull;
        disk->fail_in = -1;
        disk->rewind(acked_bytes);
        want.resize(acked_bytes);
        pending.clear();
        disk->failed = false;
    }
    void append(const Op& op, const Rec& c)
    {
        bool dev = op.fk == F_WRITE_SHORT || op.fk == F_WRITE_ERR;
        if (dev)
        {
            disk->fail_in = op.fn % 40;
            disk->fail_throws = op.fk == F_WRITE_ERR;
        }
        arm(dev || op.fk == F_FLUSH || op.fk == F_READ_ERR ? F_NONE : op.fk, op.fn);
        Outcome o = sut_armed([&] { write(c); });
        bool injected = st.fired;
        disarm();
        if (!dev)
        {
            disk->fail_in = -1;
        }
        bool reported = o.k != OK || os->fail();
        note(mix2(o.k, os->rdstate()));
        st.faults_in_segment += injected || disk->failed;
        if (!injected && !disk->failed && reported)
        {
            fail("refused-valid", "writing %s failed without a fault: %s %s", c.show().c_str(), kind_names[o.k], o.what.c_str());
        }
        if (disk->failed && !reported)
        {
            fail("unreported-loss", "the device refused bytes of %s and the writer was not told", c.show().c_str());
        }
        if (reported)
        {
            roll_back();
            return;
        }
        want += line(c);
        pending.push_back(c);
    }
    void commit(const Op& op)
    {
        disk->fail_sync = op.fk == F_FLUSH;
        if (op.fk == F_WRITE_SHORT || op.fk == F_WRITE_ERR)
        {
            disk->fail_in = op.fn % 3;
            disk->fail_throws = op.fk == F_WRITE_ERR;
        }
        Outcome o = sut_clean([&] { os->flush(); });
        disk->fail_sync = false;
        bool reported = o.k != OK || os->fail();
        if (disk->failed && !reported)
        {
            fail("unreported-loss", "a write error before or during the flush was not reported to the writer");
        }
        if (reported)
        {
            if (!disk->failed)
            {
                fail("refused-valid", "the flush failed without a fault");
            }
            ++st.faults_in_segment;
            roll_back();
            return;
        }
        disk->fail_in = -1;
        if (disk->cache != want)
        {
            size_t i = 0;
            while (i < want.size() && i < disk->cache.size() && want[i] == disk->cache[i])
            {
                ++i;
            }
            i = i > 20 ? i - 20 : 0;
            fail("wrong-bytes", "after a successful flush the journal holds ...%s, expected ...%s", show(disk->cache.substr(i, 120)).c_str(), show(want.substr(i, 120)).c_str());
        }
        disk->fsync();
        acked.insert(acked.end(), pending.begin(), pending.end());
        pending.clear();
        acked_bytes = want.size();
    }

    // the reader: returns false when there is no further readable record
    // direct: the value is extracted from the journal stream itself
    bool read_one(std::istream& is, SimIn& dev, const S& bytes, bool direct, Rec& got, S& spelled, size_t& end)
    {
        int tag = is.get();
        if (tag <= 0 || !strchr("IFCS", tag) || is.get() != ' ')
        {
            return false;
        }
        size_t at = dev.consumed();
        got = Rec();
        got.type = (char)tag;
        bool stream = direct && tag != 'C';
        S l;
        std::unique_ptr<SimIn> own;
        std::unique_ptr<std::istream> sub;
        std::istream* in = &is;
        if (!stream)
        {
            {
                Out out;
                if (!std::getline(is, l))
                {
                    return false;
                }
                if (is.eof())
                {
                    return false; // no line end: an incomplete record
                }
                if (tag == 'C')
                {
                    if (l.size() < 2 || l[0] != '(' || l.back() != ')')
                    {
                        return false;
                    }
                    l = l.substr(1, l.size() - 2);
                }
                own.reset(new SimIn(l, 0, 0, ~0ull));
            }
            sub.reset(new std::istream(own.get()));
            in = sub.get();
        }
        switch (tag)
        {
            case 'I': {
                Int v;
                if (!(*in >> v))
                {
                    return false;
                }
                Out out; // the harness looks at the value
                std::ostringstream t;
                t << v;
                got.text = t.str();
                break;
            }
            case 'F': {
                Fraction v;
                if (!(*in >> v))
                {
                    return false;
                }
                got.num = v.numerator();
                got.den = v.denominator();
                break;
            }
            case 'C': {
                Complex v;
                if (!(*in >> v))
                {
                    return false;
                }
                got.re = v.real();
                got.im = v.imag();
                break;
            }
            default: {
                Str v;
                if (!(*in >> v))
                {
                    return false;
                }
                int n = v.size();
                if (n < 2 || v[0] != '"' || v[-1] != '"')
                {
                    return false;
                }
                Str w = n == 2 ? Str() : v.slice(1, n - 1);
                got.text.assign(w.data(), w.size());
                break;
            }
        }
        if (!stream && in->peek() != EOF)
        {
            return false; // something else on the line
        }
        Out out;
        // what the bytes of this record spell
        auto blank = [&](char c) { return tag == 'F' || tag == 'C' ? (unsigned char)c <= 0x20 : strchr(" \t\n\v\f\r", c) && c; };
        if (!stream)
        {
            spelled = l;
            end = dev.consumed();
            if (tag == 'S')
            {
                spelled = l.substr(1, l.size() - 2);
            }
            else
            {
                size_t i = 0;
                while (i < l.size() && blank(l[i]))
                {
                    ++i;
                }
                spelled = l.substr(i);
            }
        }
        else if (tag == 'S')
        {
            size_t nl = bytes.find('\n', at);
            spelled = bytes.substr(at, nl == S::npos ? S::npos : nl - at);
            spelled = spelled.size() >= 2 ? spelled.substr(1, spelled.size() - 2) : S();
            end = nl == S::npos ? bytes.size() : nl + 1;
        }
        else
        {
            size_t i = at;
            while (i < bytes.size() && blank(bytes[i]))
            {
                ++i;
            }
            size_t k = i;
            while (k < bytes.size() && !blank(bytes[k]))
            {
                ++k;
            }
            spelled = bytes.substr(i, k - i);
            end = k;
        }
        if (stream && tag != 'S')
        {
            int c;
            {
                st.depth = 1;
                c = is.get();
                st.depth = 0;
            }
            if (c == '\n')
            {
                ++end;
            }
            else if (c != EOF)
            {
                is.setstate(std::ios_base::failbit);
            }
        }
        return true;
    }

    // reads the journal back; fault: the armed fault of the op applies once
    void recover(const Op& op, const S& bytes, bool crashed)
    {
        bool direct = op.a[0] % 2;
        for (int round = 0; round < 2; ++round)
        {
            bool devf = round == 0 && op.fk == F_READ_ERR;
            bool memf = round == 0 && (op.fk == F_ALLOC || op.fk == F_ALLOC_STICKY);
            std::vector<Rec> got;
            std::vector<S> spelled;
            size_t good = 0;
            SimIn dev(bytes, (int)((u64)op.a[1] % 9), op.a[2], devf ? (u64)op.fn % (bytes.size() + 1) : ~0ull);
            std::istream is(&dev);
            arm(memf ? op.fk : F_NONE, op.fn);
            Outcome o = sut_armed([&] {
                while (is)
                {
                    Rec c;
                    S t;
                    size_t end = 0;
                    if (!read_one(is, dev, bytes, direct, c, t, end))
                    {
                        break;
                    }
                    Out out;
                    got.push_back(c);
                    spelled.push_back(t);
                    if (is)
                    {
                        good = end;
                    }
                    if (got.size() > bytes.size() + 5)
                    {
                        fail("hang", "the reader extracts records for ever");
                    }
                } });
            bool fired = st.fired || dev.errored;
            disarm();
            note(mix2(o.k, got.size()));
            st.faults_in_segment += fired;
            if (o.k == OTHER || o.k == LENGTH || (o.k == BADALLOC && !fired))
            {
                fail("unexpected-exception", "reading the journal back: %s %s", kind_names[o.k], o.what.c_str());
            }
            // every value delivered is the one its bytes spell
            for (size_t i = 0; i < got.size(); ++i)
            {
                if (i < acked.size())
                {
                    if (!(got[i] == acked[i]))
                    {
                        fail("wrong-value", "acknowledged record %zu is read back as %s, written was %s", i, got[i].show().c_str(), acked[i].show().c_str());
                    }
                    continue;
                }
                Rec ref;
                if (!spells(got[i].type, spelled[i], ref) || !(ref == got[i]))
                {
                    fail("wrong-value", "the bytes %s are read back as %s", show(spelled[i]).c_str(), got[i].show().c_str());
                }
            }
            if (fired)
            {
                continue; // the reader was told; it starts again
            }
            if (got.size() < acked.size())
            {
                fail("lost-record", "only %zu of %zu acknowledged records can be read back (%s %s); the next one is %s", got.size(), acked.size(), kind_names[o.k], o.what.c_str(), acked[got.size()].show().c_str());
            }
            if (!crashed)
            {
                return;
            }
            // the recovered journal: what was read, rewritten and synced
            S clean;
            std::vector<Rec> keep;
            for (auto& c : got)
            {
                keep.push_back(c);
                clean += line(c);
            }
            acked = keep;
            pending.clear();
            want = clean;
            acked_bytes = want.size();
            open(want);
            return;
        }
    }
    void crash(const Op& op)
    {
        Rng r(mix2(op.a[3], op.a[4]));
        S cache = disk->cache;
        size_t d = disk->durable;
        S after = cache.substr(0, d);
        size_t end = d + r.below(cache.size() - d + 1); // surviving file size
        if (r.chance(40))
        {
            end = cache.size();
        }
        int lose = (int)r.below(4) * 25, tear = (int)r.below(3) * 20, flip = r.chance(30) ? 20 : 0;
        size_t at = d;
        while (at < end)
        {
            size_t stop = std::min(end, (at / sector + 1) * sector);
            S piece = cache.substr(at, stop - at);
            if (r.chance(lose))
            {
                char fill = r.chance(60) ? '\0' : (char)r.below(256);
                piece.assign(piece.size(), fill);
                count_fault(F_LOST);
            }
            else if (piece.size() > 1 && r.chance(tear))
            {
                size_t keep = 1 + r.below(piece.size() - 1);
                piece.replace(keep, S::npos, S(piece.size() - keep, '\0'));
                count_fault(F_TORN);
            }
            else if (r.chance(flip))
            {
                piece[r.below(piece.size())] ^= (char)(1u << r.below(8));
                count_fault(F_FLIP);
            }
            after += piece;
            at = stop;
        }
        count_fault(F_CRASH);
        ++st.faults_in_segment;
        probe(d == cache.size() ? "crash_clean" : end == d ? "crash_all_lost" : "crash_tail");
        os.reset();
        disk.reset(new SimDisk(buf));
        note(hash_str(after));
        recover(op, after, true);
    }

    void exec(const Op& op)
    {
        switch (op.code)
        {
            case op_append: append(op, make(op.a[0], op.a[1])); break;
            case op_append_many: {
                Op plain = op;
                for (int i = 0; i < 2 + (int)((u64)op.a[2] % 6); ++i)
                {
                    append(plain, make(op.a[0] + i, op.a[1]));
                    plain.fk = 0;
                }
                break;
            }
            case op_commit: commit(op); break;
            case op_full:
                disk->capacity = disk->cache.size() + (u64)op.a[0] % 60;
                break;
            case op_recover: {
                Op c = op;
                c.fk = 0;
                commit(c);
                recover(op, disk->cache, false);
                break;
            }
            case op_crash: crash(op); break;
        }
        if (acked.size() > 120)
        {
            acked.clear();
            pending.clear();
            want.clear();
            acked_bytes = 0;
            open("");
        }
    }
    void last()
    {
        Op op;
        roll_back();
        recover(op, disk->cache, false);
    }
};

static std::unique_ptr<Seg> seg;
static void do_reset(const Op& op) { seg.reset(new Seg(op)); }
static void do_exec(const Op& op)
{
    if (seg)
    {
        seg->exec(op);
    }
}
static void do_finish()
{
    if (seg)
    {
        seg->last();
    }
    seg.reset();
}

static void gen(Rng& r, Script& out, bool thorough)
{
    Op reset;
    reset.a[0] = (i64)r.below(100);
    reset.a[1] = (i64)r.below(100);
    out.push_back(reset);
    GenFaults gf;
    static const int all[] = {F_WRITE_SHORT, F_WRITE_ERR, F_FLUSH, F_ALLOC, F_ALLOC_STICKY, F_READ_ERR};
    if (r.chance(75))
    {
        gf.rate = (int)r.range(5, 50);
        for (int k : all)
        {
            if (r.chance(60))
            {
                gf.kinds.push_back(k);
            }
        }
        gf.maxbits = (int)r.range(1, 5);
    }
    int len = (int)r.range(4, thorough ? 60 : 30);
    int crash_rate = (int)r.range(0, 25), commit_rate = (int)r.range(5, 50);
    for (int k = 0; k < len; ++k)
    {
        Op op;
        op.code = r.chance(crash_rate) ? op_crash : r.chance(commit_rate) ? op_commit : r.chance(8) ? op_recover : r.chance(4) ? op_full : r.chance(70) ? op_append : op_append_many;
        for (auto& a : op.a)
        {
            a = (i64)r.below(1 << 20);
        }
        gf.apply(r, op);
        if (op.fk == F_READ_ERR)
        {
            op.fn = (i64)r.below(3000);
        }
        out.push_back(op);
    }
    Op op;
    op.code = op_crash;
    for (auto& a : op.a)
    {
        a = (i64)r.below(1 << 20);
    }
    out.push_back(op);
}

namespace sim
{
World world = {"persist", names, N_OPS, "digest of (operation, outcome, injected fault, bytes surviving each crash, records read back) over a whole history",
               "operator<< and operator>> of Int, Fraction, Complex and Str over std::ostream and std::istream", "disk (page cache, sectors, sync, power loss, torn/lost/damaged sectors, full disk, write, flush and read errors), allocator",
               gen, do_reset, do_exec, do_finish, 6000000, 200000, 40000000};
}
