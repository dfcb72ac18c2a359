// Simulated threads: real threads that run one at a time, switched at memory accesses by the script.
#pragma once
#include "rt.hpp"
#include <vector>

namespace sim
{
const int MAX_THREADS = 4;
struct Preempt
{
    int op;   // index of the operation in the thread's program
    i64 at;   // number of memory accesses into it
    int to;   // thread to run instead
};
struct Plan
{
    std::vector<Preempt> preempts;
};
struct RunInfo
{
    u64 accesses = 0, switches = 0, forced = 0, syncs = 0;
};
// Runs body(t) for t in [0, n) to completion, interleaved; order and extra switches are chosen by seed.
// quantum > 0: also switch after every quantum accesses on average.
RunInfo run_threads(int n, void (*body)(int t), const Plan* plans, u64 seed, i64 quantum);
// to be called by a thread at the start of each operation
void thread_op(int index, const Op& op);
// to be called at the end of each operation: a lock still held is reported
void thread_op_done();
// chooses the words that the entropy device delivers
void entropy_of(u64 world);
} // namespace sim
