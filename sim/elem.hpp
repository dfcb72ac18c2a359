// Tracked element types and uniform access to element values, for the container worlds.
#pragma once
#include "rt.hpp"
#include <compare>
#include <ostream>
#include <pyincpp.hpp>

namespace sim
{
struct Payload
{
    uint32_t magic = 0x600df00d;
    i64 v, tag;
    Payload(i64 v_, i64 t_) : v(v_), tag(t_) {}
    ~Payload() { magic = 0xdeadbeef; }
};

const i64 MOVED = -777777;

// Element owning heap memory; copies can fail, moves cannot (unless !Movable, then moves are copies).
template <bool Movable>
struct ElemT
{
    static const uint32_t LIVE = 0x1ea51ea5, DEAD = 0xdead0000;
    uint32_t magic;
    Payload* p;

    void check(const char* what) const
    {
        if (magic != LIVE)
        {
            fail("element-lifetime", "%s of an element that is not alive", what);
        }
        if (p && p->magic != 0x600df00d)
        {
            fail("element-lifetime", "%s of an element with destroyed content", what);
        }
    }
    static Payload* dup(const ElemT& t) { return t.p ? new Payload(t.p->v, t.p->tag) : nullptr; }

    ElemT() : p(nullptr)
    {
        tick_copy();
        p = new Payload(0, 0);
        magic = LIVE;
        ++st.elems;
    }
    ElemT(i64 v, i64 tag) : p(new Payload(v, tag))
    {
        magic = LIVE;
        ++st.elems;
    }
    ElemT(const ElemT& t) : p(nullptr)
    {
        t.check("copy");
        tick_copy();
        p = dup(t);
        magic = LIVE;
        ++st.elems;
    }
    ElemT(ElemT&& t) noexcept
        requires(Movable)
        : p(t.p)
    {
        t.check("move");
        t.p = nullptr;
        magic = LIVE;
        ++st.elems;
    }
    ElemT& operator=(const ElemT& t)
    {
        check("assignment to");
        t.check("assignment from");
        tick_copy();
        Payload* q = dup(t);
        delete p;
        p = q;
        return *this;
    }
    ElemT& operator=(ElemT&& t) noexcept
        requires(Movable)
    {
        check("move assignment to");
        t.check("move assignment from");
        if (this != &t)
        {
            delete p;
            p = t.p;
            t.p = nullptr;
        }
        return *this;
    }
    ~ElemT()
    {
        check("destruction");
        delete p;
        p = nullptr;
        magic = DEAD;
        --st.elems;
    }
    i64 v() const
    {
        check("read");
        return p ? p->v : MOVED;
    }
    i64 tag() const { return p ? p->tag : MOVED; }
    bool operator==(const ElemT& t) const
    {
        tick_compare();
        return v() == t.v();
    }
    std::strong_ordering operator<=>(const ElemT& t) const
    {
        tick_compare();
        return v() <=> t.v();
    }
    friend std::ostream& operator<<(std::ostream& os, const ElemT& e)
    {
        tick_compare();
        return os << "e" << e.v();
    }
};
typedef ElemT<true> Elem;
typedef ElemT<false> CElem;

struct MV // model element
{
    i64 v, tag;
};
typedef std::vector<MV> Model;

template <class T>
struct TR;

template <>
struct TR<int>
{
    static constexpr const char* name = "int";
    static constexpr bool tagged = false, strong = true, can_copy_fault = false;
    static int make(i64 v, i64) { return (int)v; }
    static i64 val(const int& t) { return t; }
    static i64 tag(const int&) { return 0; }
    static void set(int& t, i64 v) { t = (int)v; }
    static bool moved(const int&) { return false; }
};
template <bool M>
struct TR<ElemT<M>>
{
    typedef ElemT<M> T;
    static constexpr const char* name = M ? "Elem" : "CopyElem";
    static constexpr bool tagged = true, strong = M, can_copy_fault = true;
    static T make(i64 v, i64 tag) { return T(v, tag); }
    static i64 val(const T& t) { return t.v(); }
    static i64 tag(const T& t) { return t.tag(); }
    static void set(T& t, i64 v)
    {
        if (t.p)
        {
            t.p->v = v;
        }
    }
    static bool moved(const T& t) { return t.v() == MOVED; }
};
template <>
struct TR<pyincpp::Str>
{
    typedef pyincpp::Str T;
    static constexpr const char* name = "Str";
    static constexpr bool tagged = false, strong = true, can_copy_fault = false;
    static T make(i64 v, i64)
    {
        // fixed width decimal, so text order is value order; odd values do not fit the small buffer
        char b[64];
        snprintf(b, sizeof b, v % 2 ? "%06lld_and_a_long_tail_beyond_the_small_buffer" : "%06lld", (long long)v);
        return T(b);
    }
    static i64 val(const T& t)
    {
        if (t.size() < 6)
        {
            return MOVED;
        }
        i64 v = atoll(t.data());
        return std::string(t.data()) == make(v, 0).data() ? v : MOVED - 1;
    }
    static i64 tag(const T&) { return 0; }
    static void set(T& t, i64 v) { t = make(v, 0); }
    static bool moved(const T& t) { return t.size() == 0; }
};
template <>
struct TR<pyincpp::Int>
{
    typedef pyincpp::Int T;
    static constexpr const char* name = "Int";
    static constexpr bool tagged = false, strong = true, can_copy_fault = false;
    static T make(i64 v, i64)
    {
        char b[64];
        snprintf(b, sizeof b, "%lld00000000000000000000007", (long long)v + 1); // never zero
        return T(b);
    }
    static i64 val(const T& t)
    {
        // decimal digits through the public interface
        std::ostringstream o;
        o << t;
        std::string s = o.str();
        if (s.size() < 24 || s.substr(s.size() - 23) != "00000000000000000000007")
        {
            return MOVED - 1;
        }
        return atoll(s.substr(0, s.size() - 23).c_str()) - 1;
    }
    static i64 tag(const T&) { return 0; }
    static void set(T& t, i64 v) { t = make(v, 0); }
    static bool moved(const T& t) { return t.is_zero(); }
};
template <>
struct TR<std::string>
{
    typedef std::string T;
    static constexpr const char* name = "string";
    static constexpr bool tagged = false, strong = true, can_copy_fault = false;
    static T make(i64 v, i64) { return TR<pyincpp::Str>::make(v, 0).data(); }
    static i64 val(const T& t) { return TR<pyincpp::Str>::val(pyincpp::Str(t)); }
    static i64 tag(const T&) { return 0; }
    static void set(T& t, i64 v) { t = make(v, 0); }
    static bool moved(const T& t) { return t.empty(); }
};

// now and then a history starts from a container that is not small: the number of elements, and whether they should be
// of a type that is cheap to check
struct Start
{
    i64 n = 0;
    bool cheap = false;
};
inline Start start_size(Rng& r, GenFaults& gf, i64 most)
{
    Start s;
    int roll = (int)r.below(1600);
    if (roll >= 49)
    {
        return s;
    }
    if (roll < 40)
    {
        s.n = r.range(30, 300);
        gf.maxbits = r.chance(50) ? gf.maxbits : 9;
        return s;
    }
    s.n = roll < 46 ? (1ll << r.range(8, 12)) + r.range(-1, 1) : roll < 48 ? (1ll << r.range(13, 16)) + r.range(-1, 1) : r.chance(50) ? 70000 : 140000;
    s.n = s.n < most ? s.n : most;
    s.cheap = s.n > 5000 && r.chance(85);
    gf = GenFaults();
    if (s.n <= 5000 && r.chance(50))
    {
        gf.rate = 30;
        gf.kinds = {F_ALLOC, F_COPY};
        gf.maxbits = 13;
    }
    return s;
}

// an index around a sequence of n elements, valid or not, often at an edge
inline int pick_index(const Op& op, int n)
{
    const int edges[] = {0, -1, n - 1, n, -n, -n - 1, n / 2};
    const u64 raw = (u64)op.a[3];
    return op.a[4] % 3 == 0 ? edges[raw % 7] : (int)(raw % (2 * (u64)n + 4)) - n - 2;
}
// a rotation distance, often a power of two
inline int pick_distance(const Op& op, int n)
{
    const u64 raw = (u64)op.a[3];
    if (op.a[4] % 16 == 1)
    {
        probe("rotate_extreme");
        return op.a[4] % 32 == 1 ? INT_MIN : INT_MAX;
    }
    if (op.a[4] % 16 < 6)
    {
        int d = (1 << raw % 17) + (int)(op.a[5] % 3) - 1;
        return op.a[5] % 2 ? d : -d;
    }
    return (int)(raw % (4 * (u64)n + 9)) - 2 * n - 4;
}
// how many elements to add: mostly few
inline int pick_count(const Op& op, int few)
{
    return (int)((u64)op.a[3] % (op.a[5] % 32 == 7 ? 600 : op.a[5] % 8 == 0 ? 70 : few));
}

template <class T>
bool same_elem(const T& t, const MV& m)
{
    return TR<T>::val(t) == m.v && (!TR<T>::tagged || TR<T>::tag(t) == m.tag);
}

template <class C, class T>
std::string show_cont(const C& c)
{
    std::string s = "[";
    int n = 0;
    for (auto it = c.begin(); it != c.end(); ++it)
    {
        s += fmt("%s%lld", n ? " " : "", (long long)TR<T>::val(*it));
        if (TR<T>::tagged)
        {
            s += fmt("#%lld", (long long)TR<T>::tag(*it));
        }
        if (++n > 40)
        {
            s += " ...";
            break;
        }
    }
    return s + "]";
}
inline std::string show_model(const Model& m, bool tagged)
{
    std::string s = "[";
    int n = 0;
    for (auto& e : m)
    {
        s += fmt("%s%lld", n ? " " : "", (long long)e.v);
        if (tagged)
        {
            s += fmt("#%lld", (long long)e.tag);
        }
        if (++n > 40)
        {
            s += " ...";
            break;
        }
    }
    return s + "]";
}

// whole-content comparison of a sequence container with its model, through iterators and size
template <class T, class C>
bool seq_equal(const C& c, const Model& m)
{
    if (c.size() != (int)m.size() || c.is_empty() != m.empty())
    {
        return false;
    }
    size_t i = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++i)
    {
        if (i >= m.size() || !same_elem<T>(*it, m[i]))
        {
            return false;
        }
    }
    return i == m.size();
}
} // namespace sim
