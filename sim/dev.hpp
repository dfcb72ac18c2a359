// Simulated stream devices.
#pragma once
#include "rt.hpp"
#include <istream>
#include <ostream>
#include <streambuf>

namespace sim
{
// Input device: delivers content in chunks; may fail once at a given position.
struct SimIn : std::streambuf
{
    std::string data;
    size_t given = 0;      // bytes handed to the get area so far
    size_t error_at = ~0ull;
    int chunk = 0;         // 0: everything at once
    u64 chunk_seed = 0;
    u64 calls = 0, eofs = 0;
    bool errored = false;
    bool sticky = false; // the device keeps failing
    char area[4096];

    SimIn(const std::string& d, int chunk_, u64 seed, size_t err)
        : data(d), error_at(err), chunk(chunk_), chunk_seed(seed)
    {
    }
    size_t consumed() const { return given - (egptr() - gptr()); }
    int_type underflow() override
    {
        if (gptr() < egptr())
        {
            return traits_type::to_int_type(*gptr());
        }
        ++calls;
        if (given >= error_at && errored && sticky)
        {
            if (++eofs > 20000)
            {
                fail("hang", "the stream was asked for more input %llu times after its device failed", (unsigned long long)eofs);
            }
            throw DeviceFault();
        }
        if (given >= error_at && !errored)
        {
            errored = true;
            count_fault(F_READ_ERR);
            throw DeviceFault();
        }
        if (given >= data.size())
        {
            if (++eofs > 20000)
            {
                fail("hang", "the stream was asked for more input %llu times after its end", (unsigned long long)eofs);
            }
            return traits_type::eof();
        }
        // a small buffer, or one as large as those of real files and pipes
        size_t n = chunk_seed % 4 ? 64 : sizeof area;
        if (chunk)
        {
            n = 1 + mix2(chunk_seed, calls) % chunk;
            count_chunk();
        }
        n = std::min(n, sizeof area);
        n = std::min(n, data.size() - given);
        if (given < error_at)
        {
            n = std::min(n, error_at - given);
        }
        memcpy(area, data.data() + given, n);
        given += n;
        setg(area, area, area + n);
        return traits_type::to_int_type(*gptr());
    }
    void count_chunk()
    {
        bool f = st.fired;
        count_fault(F_CHUNK);
        st.fired = f; // delivery in pieces is not a failure
    }
};

// Output device: accepts a limited number of bytes, then reports a short write or throws.
struct SimOut : std::streambuf
{
    std::string got;
    size_t limit = ~0ull;
    bool throws = false, failed = false, fail_flush = false;
    bool transient = false; // only the first write beyond the limit fails
    u64 flushes = 0;

    void hit(int kind)
    {
        if (!failed)
        {
            failed = true;
            count_fault(kind);
        }
        if (transient)
        {
            limit = ~0ull;
        }
    }
    int_type overflow(int_type c) override
    {
        if (traits_type::eq_int_type(c, traits_type::eof()))
        {
            return traits_type::not_eof(c);
        }
        if (got.size() >= limit)
        {
            hit(throws ? F_WRITE_ERR : F_WRITE_SHORT);
            if (throws)
            {
                throw DeviceFault();
            }
            return traits_type::eof();
        }
        Out out;
        got += traits_type::to_char_type(c);
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        size_t room = limit - got.size();
        size_t take = std::min<size_t>(n, room);
        {
            Out out;
            got.append(s, take);
        }
        if (take < (size_t)n)
        {
            hit(throws ? F_WRITE_ERR : F_WRITE_SHORT);
            if (throws)
            {
                throw DeviceFault();
            }
        }
        return take;
    }
    int sync() override
    {
        ++flushes;
        if (fail_flush)
        {
            count_fault(F_FLUSH);
            return -1;
        }
        return 0;
    }
};
} // namespace sim
