// Deterministic choice explorer: stateless depth-first model checking of real code.
//
// A scenario body is a deterministic function of the answers of choose()/deviate().  The explorer runs
// it once per choice sequence and enumerates every sequence: all values of free choices, and every
// placement of at most `bound` deviations from the default answer (value 0) of deviate() points.
#pragma once
#include <cstdint>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc
{
    extern long long (*simulated_us)();    // what time() answers, -1: the real time
    struct Violation { };          // thrown by fail(); the message is kept globally
    struct Abandon { };            // thrown by abandon(): the execution is outside the domain, not counted

    // A free choice in [0,n): every value is explored, at no cost.
    int choose(int n, const char *label);
    // An environment choice in [0,n): 0 is the default answer, any other value costs one deviation.
    int deviate(int n, const char *label);
    // Number of deviations still available in this execution.
    int budget_left();

    // Report a violation of the property and stop the execution.
    [[noreturn]] void fail(const std::string &msg);
    // Same, but with a key by which known-findings.txt may list it.
    [[noreturn]] void fail_key(const std::string &key, const std::string &msg);
    // Record a violation without throwing (for use below noexcept / destructors).
    void record(const std::string &msg);
    bool failed();
    [[noreturn]] void abandon();

    // Trace lines (only evaluated while an execution is traced for a replay or a sample).
    extern bool tracing;
    void note_(const std::string &s);
#define MC_NOTE(expr) do { if(mc::tracing) mc::note_(expr); } while(0)
#define MC_CHECK(cond, msg) do { if(!(cond)) mc::fail(std::string("") + (msg)); } while(0)

    // Register the current (canonical) state / the observable outcome of the execution, for the coverage counts.
    void state(uint64_t h);
    void outcome(uint64_t h);
    // If set, called at every choice point to hash the canonical state; otherwise the path is the state.
    void set_state_fn(std::function<uint64_t()> fn);

    // Coverage facts to be written into the evidence file as they are.
    void fact(const std::string &name, const std::string &json_value);

    uint64_t hash_bytes(const void *p, size_t n, uint64_t seed = 0xcbf29ce484222325ull);
    inline uint64_t hash(const std::string &s, uint64_t seed = 0xcbf29ce484222325ull) { return hash_bytes(s.data(), s.size(), seed); }
    inline uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; a ^= a >> 33; return a; }

    bool thorough();
    inline int by_tier(int quick, int deep) { return thorough() ? deep : quick; }

    // Register a scenario. shards > 1 splits its tree over that many jobs (by its first `shard_depth` choices).
    void add(const std::string &name, int bound, std::function<void()> body, int shards = 1, int shard_depth = 2);

    // Allocation ledger (mc replaces operator new).
    struct Alloc { size_t largest = 0, live = 0, peak = 0, count = 0; };
    extern Alloc alloc;
    void alloc_reset();
    extern bool in_body;           // an execution is running
    extern size_t alloc_refuse;    // a single request above this throws std::bad_alloc

    // Ledger of the heap blocks obtained (by whatever allocator) while the code under test runs.
    struct Inside { Inside(); ~Inside(); };                // the code under test runs
    struct Outside { int was; Outside(); ~Outside(); };    // it has called the harness or the simulated kernel
    void mem_begin();              // forget everything
    size_t mem_live();             // bytes still there
    std::string mem_report();      // what is still there
    void mem_claim(void *p, size_t n);     // count this block as one of the code under test
    // Run something again which has just run since `mark()`, with the same choices.
    size_t mark();
    void again(size_t since, const std::function<void()> &f);

    std::string printable(const std::string &s, size_t max = 200);
    std::string num(long long v);

    std::string scratch();         // a private scratch directory of this process, removed at exit
}

// The harness provides:
void mc_register();                // add scenarios
