// Deterministic-simulation core shared by every simulator binary in /verif/sim.
//
// One run  = one Plan (a textual list of operations and fault decisions).
// A Plan is produced from a 64-bit seed by Scenario::generate() and by nothing else; executing a Plan
// (Scenario::execute) draws no randomness, reads no real clock and depends on no wall time, so a Plan
// (hence a seed) is one exactly repeatable execution.  Every execution happens in a forked child, so
// a crash, an exit() call or a hang of the code under test is an observation, not the end of the
// search, and static state in the code under test cannot leak from run to run.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace dst {

// ------------------------------------------------------------------ randomness
struct Rng
{
    uint64_t s[4];
    explicit Rng(uint64_t seed);
    uint64_t u64();
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    double uniform() { return (double)(u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uniform(double lo, double hi) { return lo + (hi - lo) * uniform(); }
    bool chance(double p) { return uniform() < p; }
    double gauss();
    template <typename T>
    const T& pick(const std::vector<T>& v)
    {
        return v[below(v.size())];
    }
};
uint64_t mix(uint64_t a, uint64_t b);

// ------------------------------------------------------------------ plans
struct Op
{
    std::string name;
    std::vector<std::string> args;

    int64_t i(size_t k) const;
    uint64_t u(size_t k) const;
    double d(size_t k) const;
    const std::string& s(size_t k) const;
};

std::string tok(int64_t v);
std::string tokd(double v);  // exact (hex float)

struct Plan
{
    std::map<std::string, std::string> hdr;
    std::vector<Op> ops;

    void set(const std::string& k, int64_t v) { hdr[k] = tok(v); }
    void setd(const std::string& k, double v) { hdr[k] = tokd(v); }
    int64_t get(const std::string& k, int64_t dflt = 0) const;
    double getd(const std::string& k, double dflt = 0) const;

    Op& add(const std::string& name) { ops.push_back(Op{name, {}}); return ops.back(); }
    Op& add(const std::string& name, std::vector<int64_t> a)
    {
        Op& o = add(name);
        for (auto v : a) o.args.push_back(tok(v));
        return o;
    }

    std::string text() const;
    static bool parse(const std::string& text, Plan& out);
};

// ------------------------------------------------------------------ one run
struct Run
{
    bool trace = false;             // keep the event log (replay)
    std::string scratch;            // private scratch directory of this worker
    std::vector<std::string> log;

    // Observable history: hashed always, kept when trace is on.
    void ev(const char* f, ...) __attribute__((format(printf, 2, 3)));
    void evbytes(const void* p, size_t n);
    // Fault actually injected (as opposed to planned).
    void fault(const std::string& kind, int64_t n = 1) { faults[kind] += n; }
    // "this rare path was reached"
    void probe(const std::string& what, int64_t n = 1) { probes[what] += n; }
    // Abstract states visited, for the coverage measure.
    void state(uint64_t h) { states.insert(h); }
    void simTime(double sec) { sim_s += sec; }
    void ops(int64_t n = 1) { n_ops += n; }
    // Non-trivial by the property's rule
    void nontrivial() { is_nontrivial = true; }
    // Property violated. Ends the run.
    [[noreturn]] void fail(const std::string& cls, const char* f, ...)
        __attribute__((format(printf, 3, 4)));

    uint64_t hash = 1469598103934665603ull;
    std::map<std::string, int64_t> faults, probes;
    std::set<uint64_t> states;
    double sim_s = 0;
    int64_t n_ops = 0;
    bool is_nontrivial = false;
    std::string vclass, vmsg;
};
extern Run* g_run;  // the run being executed in this process, if any

struct Scenario
{
    virtual ~Scenario() {}
    // Everything random happens here.
    virtual Plan generate(Rng& rng, bool thorough) = 0;
    virtual void execute(const Plan& plan, Run& run) = 0;
    // exit() called by the code under test: a violation unless the scenario expects it.
    virtual double watchdogSec() const { return 20.0; }
    // kinds of operations the minimiser must keep
    virtual bool keep(const Op&) const { return false; }
};

struct Registered
{
    std::string prop;
    std::function<Scenario*()> make;
};
std::vector<Registered>& registry();
struct Register
{
    Register(const char* prop, std::function<Scenario*()> mk) { registry().push_back({prop, mk}); }
};
#define DST_SCENARIO(PROP, TYPE) \
    static dst::Register dst_reg_##TYPE(PROP, []() -> dst::Scenario* { return new TYPE; });

// ------------------------------------------------------------------ seams (see seams.cpp)
// Simulated clock.  While enabled, every clock the code under test can read (clock_gettime with any
// id, gettimeofday, time) is this one.
namespace clk {
extern bool enabled;
extern int64_t mono_ns;           // monotonic time
extern int64_t wall_offset_ns;    // CLOCK_REALTIME = mono + offset (jumps change this)
extern int64_t cost_ns;           // how far one clock reading advances time
extern void (*on_advance)();      // called after each advance (deliver due events, re-entrantly)
inline int64_t wall() { return mono_ns + wall_offset_ns; }
void start(int64_t wall_ns);
void advance(int64_t ns);
}  // namespace clk

// Simulated storage faults, applied to file descriptors opened under the scratch directory.
namespace disk {
struct Rule
{
    std::string suffix;       // path suffix the rule applies to
    // writes
    int64_t short_every = 0;  // every n-th write is short
    int64_t eintr_every = 0;  // every n-th call is interrupted (EINTR)
    int64_t quota = -1;       // bytes accepted by this file in total; then err
    int err = 28;             // ENOSPC
    // reads
    int64_t rshort_every = 0;
    int64_t reintr_every = 0;
    int64_t rfail_at = -1;    // reading at or past this offset fails with EIO
};
extern bool enabled;
extern std::vector<Rule> rules;
extern std::string root;      // only below this prefix
extern int64_t max_reads;     // more than this many read() calls in one run = no progress
void reset();
struct Stats { int64_t w_short, w_eintr, w_err, r_short, r_eintr, r_err, reads, writes; };
extern Stats st;
}  // namespace disk

void (*setExitHandler(void (*fn)(int)))(int);  // exit() hook (does not return)

int coreMain(int argc, char** argv);

}  // namespace dst
