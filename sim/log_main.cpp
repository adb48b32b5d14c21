// Simulations of the logging subsystem (C01-C07): the repository's writer and reader run
// for real on a scratch directory; storage, clock and truncation are the simulator's.
#include <signal.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <experimental/filesystem>
#include <memory>

#include "logtypes.h"

using namespace dst;
using namespace logt;
namespace fs = std::experimental::filesystem;
using mc::UTCTime;
using mc::logging::Logger;
using mc::logging::LogReader;
using mc::logging::StreamReader;

namespace {

struct Rec
{
    int64_t sec, nsec;
    uint64_t seed;
    bool operator<(const Rec& o) const { return sec != o.sec ? sec < o.sec : nsec < o.nsec; }
};
struct StreamModel
{
    int slot, key, type;
    std::vector<Rec> recs;
    std::string file;      // data file, found by looking at the directory
    int64_t intact = -1;   // number of complete records still readable (-1: all)
    bool gone = false;     // data file missing
};
struct LogModel
{
    std::string dir, id;
    UTCTime start, end;
    int amends = -1;
    std::map<int, StreamModel> streams;  // by slot
};

std::string keyFile(const std::string& dir, int key)
{
    // The data file of a key, identified by the description beside it (not by its name).
    for (auto& e : fs::directory_iterator(dir))
    {
        if (e.path().extension() != ".yml" || e.path().stem() == "manifest") continue;
        YAML::Node n = YAML::LoadFile(e.path().string());
        if (n["key"] && n["key"].as<int>() == key)
            return (e.path().parent_path() / e.path().stem()).string() + ".log";
    }
    return "";
}

struct World
{
    Run& run;
    std::vector<LogModel> logs;
    std::unique_ptr<Logger> cur;
    std::string base;
    bool monotone = true;
    bool closed = false;  // the writer object is kept, its log is closed
    std::map<int, int64_t> quota;  // slot -> bytes, of the current log

    explicit World(Run& r) : run(r)
    {
        base = run.scratch + "/logs";
        fs::create_directories(base);
        clk::start(1600000000ll * 1000000000ll);
        clk::cost_ns = 1000;
    }
    ~World()
    {
        cur.reset();
    }

    LogModel& log() { return logs.back(); }

    void write(const Plan& plan)
    {
        for (auto& op : plan.ops)
        {
            if (op.name == "newlog")
            {
                if (cur && !closed) closeLog(op.i(0), op.i(1), 0);
                LogModel m;
                m.start = UTCTime(op.i(0), op.i(1));
                logs.push_back(m);
                clk::wall_offset_ns = op.i(0) * 1000000000ll + op.i(1) - clk::mono_ns;
                if (cur)
                {
                    cur->open(m.start, base);  // one writer object writes one log after the other
                    closed = false;
                    run.probe("writer-reused");
                }
                else if (op.i(3) == 0)
                    cur = std::make_unique<Logger>(m.start, base);
                else
                {
                    clk::cost_ns = 0;
                    cur = std::make_unique<Logger>(base);  // takes its start time from the clock
                    clk::cost_ns = 1000;
                }
                log().id = cur->logId();
                log().dir = base + "/" + log().id;
                const int amends = (int)op.i(2);
                if (amends >= 0 && amends < (int)logs.size() - 1)
                {
                    log().amends = amends;
                    cur->amends(logs[amends].dir);
                }
                run.ops();
            }
            else if (op.name == "stream")
            {
                if (!cur || closed || log().streams.count((int)op.i(0))) continue;
                bool dup = false;
                for (auto& s : log().streams) dup |= s.second.key == (int)op.i(1);
                if (dup) continue;
                StreamModel s;
                s.slot = (int)op.i(0);
                s.key = (int)op.i(1);
                s.type = (int)(op.i(2) % (int64_t)types().size());
                types()[s.type].init(*cur, s.key);
                log().streams[s.slot] = s;
                run.ops();
            }
            else if (op.name == "rec")
            {
                if (!cur || closed) continue;
                auto it = log().streams.find((int)op.i(0));
                if (it == log().streams.end()) continue;
                Rec r{op.i(1), op.i(2), op.u(3)};
                const auto& t = types()[it->second.type];
                if (op.i(4))
                {
                    // stamped by the writer with the simulated clock
                    clk::cost_ns = 0;
                    clk::wall_offset_ns = r.sec * 1000000000ll + r.nsec - clk::mono_ns;
                    t.log(*cur, it->second.key, nullptr, r.seed);
                    clk::cost_ns = 1000;
                }
                else
                {
                    const UTCTime when(r.sec, r.nsec);
                    t.log(*cur, it->second.key, &when, r.seed);
                }
                it->second.recs.push_back(r);
                run.ops();
            }
            else if (op.name == "burst")
            {
                // many records in a row: slot, first time, step, number, seed
                if (!cur || closed) continue;
                auto it = log().streams.find((int)op.i(0));
                if (it == log().streams.end()) continue;
                const auto& t = types()[it->second.type];
                Rec r{op.i(1), op.i(2), op.u(5)};
                for (int64_t k = 0; k < op.i(4); ++k)
                {
                    r.seed = mix(op.u(5), (uint64_t)k) >> 2;
                    r.nsec += op.i(3);
                    while (r.nsec >= 1000000000) { r.nsec -= 1000000000; ++r.sec; }
                    const UTCTime when(r.sec, r.nsec);
                    t.log(*cur, it->second.key, &when, r.seed);
                    it->second.recs.push_back(r);
                }
                run.ops(op.i(4));
                run.probe("burst");
            }
            else if (op.name == "quota")
            {
                // this stream's storage stops accepting data after so many bytes
                if (!cur || closed) continue;
                auto it = log().streams.find((int)op.i(0));
                if (it == log().streams.end()) continue;
                disk::Rule r;
                const std::string id = log().id;
                for (auto& e : fs::directory_iterator(log().dir)) (void)e;
                r.suffix = "/" + id + "/" + dataName(it->second.key);
                r.quota = op.i(1);
                r.err = op.i(2) ? 5 : 28;
                disk::rules.insert(disk::rules.begin(), r);
                quota[it->second.slot] = op.i(1);
            }
            else if (op.name == "clockjump")
            {
                clk::wall_offset_ns += op.i(0);
                run.fault("clock-jump");
            }
            else if (op.name == "close")
            {
                if (cur && !closed) closeLog(op.i(1), op.i(2), (int)op.i(0));
            }
        }
        if (cur && !closed) closeLog(1700000000, 0, 0);
        cur.reset();
    }

    // While a log is open its files are only recognisable by name; ask the writer's own naming.
    static std::string dataName(int key) { return mc::logging::logKeyName(key) + ".log"; }

    // how: 0 closed, then destroyed later; 1 closed by its destructor; 2 closed and kept for another log
    void closeLog(int64_t sec, int64_t nsec, int how)
    {
        LogModel& m = log();
        m.end = UTCTime(sec, nsec);
        if (how == 1)
        {
            clk::cost_ns = 0;
            clk::wall_offset_ns = sec * 1000000000ll + nsec - clk::mono_ns;
            cur.reset();
            clk::cost_ns = 1000;
        }
        else
        {
            cur->close(m.end);
            closed = how == 2;
            // the writer object lives on for a while
            clk::advance(5'000'000'000ll);
            if (!closed) cur.reset();
        }
        for (auto& kv : m.streams)
        {
            StreamModel& s = kv.second;
            s.file = keyFile(m.dir, s.key);
            if (s.file.empty())
                run.fail("stream-missing", "no stored stream describes key %d (slot %d)", s.key, s.slot);
            if (quota.count(s.slot))
            {
                const int64_t q = quota[s.slot];
                const int64_t rec = (int64_t)types()[s.type].bytes;
                s.intact = std::min<int64_t>((int64_t)s.recs.size(), q / rec);
            }
        }
        quota.clear();
    }

    // streams visible through log k: newest log that has the key wins
    std::map<int, const StreamModel*> visible(int k, UTCTime& start, UTCTime& end)
    {
        std::map<int, const StreamModel*> v;
        start = logs[k].start;
        end = logs[k].end;
        int guard = 0;
        for (int i = k; i >= 0 && guard < 50; i = logs[i].amends, ++guard)
        {
            for (auto& s : logs[i].streams) v.emplace(s.second.key, &s.second);
            if (logs[i].start < start) start = logs[i].start;
            if (logs[i].end > end) end = logs[i].end;
        }
        return v;
    }

    struct Delivered
    {
        int key;
        Rec rec;
    };

    // Read log k through `path` with the given keys subscribed, check everything observable.
    std::vector<Delivered> read(int k, const std::string& path, const std::set<int>& keys, bool check_counts)
    {
        UTCTime start, end;
        auto vis = visible(k, start, end);
        LogReader reader(path);
        run.ops();
        if (!(reader.startTime() == start))
            run.fail("start-time", "log %d: start time reads %lld.%09lld, written %lld.%09lld", k,
                     (long long)reader.startTime().sec, (long long)reader.startTime().nsec,
                     (long long)start.sec, (long long)start.nsec);
        if (!(reader.endTime() == end))
            run.fail("end-time", "log %d: end time reads %lld.%09lld, written %lld.%09lld", k,
                     (long long)reader.endTime().sec, (long long)reader.endTime().nsec, (long long)end.sec,
                     (long long)end.nsec);
        std::map<int, size_t> next;
        std::map<int, bool> torn;
        std::vector<Delivered> out;
        size_t calls = 0, limit = 64;
        for (auto& kv : vis) limit += kv.second->recs.size();
        UTCTime last = mc::MIN_TIME;
        for (int key : keys)
        {
            reader.setCallback(key, [&, key](const UTCTime& t, int cbkey, StreamReader& rd) {
                if (++calls > limit) run.fail("no-progress", "more deliveries than records exist (%zu)", calls);
                if (cbkey != key) run.fail("wrong-key", "key %d delivered to the callback of key %d", cbkey, key);
                auto it = vis.find(key);
                if (it == vis.end()) run.fail("fabricated", "key %d has no stream", key);
                const StreamModel& s = *it->second;
                const size_t n = s.gone ? 0 : s.intact >= 0 ? (size_t)s.intact : s.recs.size();
                const size_t at = next[key];
                if (check_counts && rd.numRecords() != (int)s.recs.size())
                    run.fail("record-count", "key %d: %d records announced, %zu written", key, rd.numRecords(), s.recs.size());
                Leaves got;
                const bool ok = types()[s.type].read(rd, got);
                if (torn[key]) run.fail("fabricated", "key %d: delivery after a torn record", key);
                if (at >= n)
                {
                    // Nothing more is stored completely: a torn last record may be announced, but it
                    // must be reported as such, and nothing follows it.
                    if (ok) run.fail(s.intact < 0 ? "extra-record" : "fabricated",
                                     "key %d: record %zu delivered as complete, only %zu are stored", key, at, n);
                    torn[key] = true;
                    run.probe("torn-record-reported");
                    return;
                }
                const Rec& r = s.recs[at];
                if (!ok) run.fail("record-refused", "key %d: record %zu of %zu is complete but was reported unreadable", key, at, n);
                if (t.sec != r.sec || t.nsec != r.nsec)
                    run.fail("time-stamp", "key %d record %zu: time %lld.%09lld, written %lld.%09lld", key, at,
                             (long long)t.sec, (long long)t.nsec, (long long)r.sec, (long long)r.nsec);
                const std::string d = diff(types()[s.type].make(r.seed), got);
                if (!d.empty()) run.fail("content", "key %d (%s) record %zu: field %s differs", key, types()[s.type].name.c_str(), at, d.c_str());
                if (monotone && t < last)
                    run.fail("time-order", "key %d record %zu at %lld.%09lld delivered after %lld.%09lld", key, at,
                             (long long)t.sec, (long long)t.nsec, (long long)last.sec, (long long)last.nsec);
                last = t;
                ++next[key];
                out.push_back({key, r});
                run.ev("got %d %lld.%09lld", key, (long long)t.sec, (long long)t.nsec);
            });
        }
        reader.read();
        for (int key : keys)
        {
            auto it = vis.find(key);
            if (it == vis.end()) continue;
            const StreamModel& s = *it->second;
            const size_t n = s.gone ? 0 : s.intact >= 0 ? (size_t)s.intact : s.recs.size();
            if (next[key] != n)
                run.fail("lost-record", "key %d: %zu of %zu stored records were delivered", key, next[key], n);
        }
        return out;
    }

    void finishStats()
    {
        run.simTime((double)clk::mono_ns * 1e-9 - 1000);
        run.fault("short-write", disk::st.w_short);
        run.fault("interrupted-write", disk::st.w_eintr);
        run.fault("write-error-ENOSPC/EIO", disk::st.w_err);
        run.fault("short-read", disk::st.r_short);
        run.fault("interrupted-read", disk::st.r_eintr);
        run.fault("read-error-EIO", disk::st.r_err);
    }
};

std::set<int> keysOf(const std::map<int, const StreamModel*>& v)
{
    std::set<int> k;
    for (auto& x : v) k.insert(x.first);
    return k;
}

void startDisk(Run& run, const Plan& p)
{
    disk::enabled = true;
    disk::root = run.scratch;
    disk::max_reads = 400000;
    disk::Rule r;
    r.suffix = ".log";
    r.short_every = p.get("f_wshort");
    r.eintr_every = p.get("f_weintr");
    r.rshort_every = p.get("f_rshort");
    r.reintr_every = p.get("f_reintr");
    disk::rules.push_back(r);
}

// ---------------------------------------------------------------- plan generation
struct GenOpt
{
    int max_streams = 6;
    int max_recs = 120;
    bool monotone = true;
    bool io_faults = true;
    int max_logs = 1;
    bool hard_keys = false;
    bool known_types = false;
};

int64_t genKey(Rng& rng, bool hard)
{
    if (!hard && rng.chance(0.5)) return (int64_t)rng.below(12);
    switch (rng.below(5))
    {
    case 0: return (int64_t)rng.below(12);
    case 1: return (int64_t)rng.range(12, 1300);
    case 2: { int64_t k = rng.range(12, 130); return rng.chance(0.5) ? k * 10 : k; }
    case 3: { int64_t k = rng.range(2, 13); return rng.chance(0.3) ? k * 100 : rng.chance(0.5) ? k * 1000 : k * 10; }
    default: return (int64_t)rng.below(2000000000);
    }
}

void genLog(Rng& rng, Plan& p, const GenOpt& o, int64_t start_sec, int amends, std::vector<int64_t>& keys,
            std::vector<int>* slots_out = nullptr, std::vector<int>* types_out = nullptr,
            std::vector<int>* nrec_out = nullptr)
{
    p.add("newlog", {start_sec, (int64_t)rng.below(1000000000), amends, rng.chance(0.3)});
    const int ns = (int)rng.range(1, o.max_streams);
    std::vector<int> slots;
    std::vector<int> tps;
    for (int s = 0; s < ns; ++s)
    {
        int64_t key;
        if (!keys.empty() && rng.chance(0.4) && amends >= 0)
            key = keys[rng.below(keys.size())];
        else
            key = genKey(rng, o.hard_keys);
        if (o.hard_keys && !keys.empty() && rng.chance(0.4))
        {
            // near relatives of keys in use: same digits, zeros added or removed
            key = keys[rng.below(keys.size())];
            if (rng.chance(0.5) && key % 10 == 0 && key > 0) key /= 10;
            else if (key < 100000000) key *= 10;
        }
        keys.push_back(key);
        int type = (int)rng.below(types().size());
        if (type == 15 && rng.chance(0.7)) type = 4;
        p.add("stream", {s, key, type});
        slots.push_back(s);
        tps.push_back(type);
    }
    // records: each stream has its own clock; small steps so that ties across streams are common
    std::vector<int64_t> sec(ns), nsec(ns);
    std::vector<int> count(ns, 0);
    for (int s = 0; s < ns; ++s) { sec[s] = start_sec; nsec[s] = rng.chance(0.5) ? 0 : (int64_t)rng.below(1000000000); }
    int n = (int)rng.range(0, o.max_recs);
    if (rng.chance(0.1)) n = 0;
    const bool ties = rng.chance(0.5);
    const int bursty = (int)rng.below(3);
    int last = 0;
    for (int k = 0; k < n; ++k)
    {
        int s = bursty && rng.chance(0.7) ? last : (int)rng.below(ns);
        last = s;
        if (tps[s] == 15 && count[s] > 3) continue;
        int64_t d = ties ? rng.range(0, 3) * 250000000 : (int64_t)rng.below(rng.chance(0.1) ? 3000000000ull : 2000000ull);
        if (!o.monotone && rng.chance(0.2)) d = -d;
        nsec[s] += d;
        while (nsec[s] >= 1000000000) { nsec[s] -= 1000000000; ++sec[s]; }
        while (nsec[s] < 0) { nsec[s] += 1000000000; --sec[s]; }
        if (rng.chance(0.05)) p.add("clockjump", {rng.range(-1000000000000ll, 1000000000000ll)});
        p.add("rec", {s, sec[s], nsec[s], (int64_t)(rng.u64() >> 2), rng.chance(0.15)});
        ++count[s];
    }
    if (slots_out) *slots_out = slots;
    if (types_out) *types_out = tps;
    if (nrec_out) *nrec_out = count;
}

void genIo(Rng& rng, Plan& p)
{
    auto n = [&]() { return rng.chance(0.5) ? 0 : rng.range(2, 7); };
    p.set("f_wshort", n());
    p.set("f_weintr", n());
    p.set("f_rshort", n());
    p.set("f_reintr", n());
}

void addClose(Rng& rng, Plan& p, int64_t sec) { p.add("close", {rng.chance(0.4) ? 1 : rng.chance(0.3) ? 2 : 0, sec, (int64_t)rng.below(1000000000)}); }

struct LogScenario : Scenario
{
    bool keep(const Op& op) const override { return op.name == "newlog"; }
};

// ================================================================= C01 round trip
struct RoundTrip : LogScenario
{
    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p;
        GenOpt o;
        o.max_streams = 8;
        o.max_recs = rng.chance(0.2) ? 600 : 100;
        if (thorough && rng.chance(0.1)) o.max_recs = 4000;
        o.monotone = rng.chance(0.7);
        p.set("monotone", o.monotone);
        genIo(rng, p);
        std::vector<int64_t> keys;
        const int64_t start = rng.range(1000000000, 2000000000);
        genLog(rng, p, o, start, -1, keys);
        if (rng.chance(thorough ? 0.05 : 0.015))
        {
            // a long recording: more records than fit small counters
            p.add("stream", {90, 77000001, 13});
            const int64_t step = rng.range(0, 2000000);
            p.add("burst", {90, start, (int64_t)rng.below(1000000000), step, rng.range(30000, thorough ? 150000 : 70000), (int64_t)(rng.u64() >> 2)});
        }
        addClose(rng, p, start + rng.range(0, 5000));
        return p;
    }
    void execute(const Plan& p, Run& run) override
    {
        World w(run);
        w.monotone = p.get("monotone", 1);
        startDisk(run, p);
        w.write(p);
        if (w.logs.empty()) return;
        UTCTime a, b;
        auto vis = w.visible(0, a, b);
        auto got = w.read(0, w.logs[0].dir, keysOf(vis), true);
        // the same log reads the same a second time (through the one-at-a-time interface's order too)
        auto again = w.read(0, w.logs[0].dir, keysOf(vis), true);
        if (got.size() != again.size()) run.fail("reread", "second reading differs");
        if (got.size() > 3 && vis.size() > 1) run.nontrivial();
        for (auto& s : w.logs[0].streams) run.state(mix(s.second.type, std::min<size_t>(s.second.recs.size(), 40)));
        run.probe("records", (int64_t)got.size());
        w.finishStats();
    }
};
DST_SCENARIO("C01", RoundTrip)

// ================================================================= C02 merged order
struct MergedOrder : LogScenario
{
    Plan generate(Rng& rng, bool) override
    {
        Plan p;
        GenOpt o;
        o.max_streams = 8;
        o.max_recs = 200;
        o.max_logs = 2;
        std::vector<int64_t> keys;
        genIo(rng, p);
        const int64_t start = rng.range(1000000000, 2000000000);
        const int nl = (int)rng.range(1, 2);
        for (int l = 0; l < nl; ++l)
        {
            genLog(rng, p, o, start + l * rng.range(1, 3), l - 1, keys);
            addClose(rng, p, start + rng.range(0, 5000));
        }
        p.set("subset", (int64_t)(rng.u64() >> 1));
        p.set("subset2", (int64_t)(rng.u64() >> 1));
        return p;
    }
    void execute(const Plan& p, Run& run) override
    {
        World w(run);
        startDisk(run, p);
        w.write(p);
        if (w.logs.empty()) return;
        const int k = (int)w.logs.size() - 1;
        UTCTime a, b;
        auto vis = w.visible(k, a, b);
        auto all = w.read(k, w.logs[k].dir, keysOf(vis), false);
        for (int round = 0; round < 2; ++round)
        {
            // any subset of the streams: the same records of those streams, in time order
            uint64_t bits = (uint64_t)p.get(round ? "subset2" : "subset");
            std::set<int> sub;
            int i = 0;
            for (auto& kv : vis) if ((bits >> (i++ % 60)) & 1) sub.insert(kv.first);
            if (bits % 3 == 0) sub.insert(1999999999);  // subscribing to a key the log lacks is harmless
            auto got = w.read(k, w.logs[k].dir, sub, false);
            size_t expect = 0;
            for (auto& d : all) expect += sub.count(d.key);
            if (got.size() != expect)
                run.fail("subscription-dependence", "%zu records with a subset subscribed, %zu of those streams with all", got.size(), expect);
            run.state(mix(sub.size(), vis.size()));
        }
        int ties = 0, alt = 0;
        for (size_t i = 1; i < all.size(); ++i)
        {
            if (all[i].key == all[i - 1].key) continue;
            ++alt;
            if (!(all[i].rec < all[i - 1].rec) && !(all[i - 1].rec < all[i].rec)) ++ties;
        }
        run.probe("equal-stamps-across-streams", ties);
        run.probe("stream-switches", alt);
        if (alt > 2) run.nontrivial();
        w.finishStats();
    }
};
DST_SCENARIO("C02", MergedOrder)

// ================================================================= C03 truncation / full storage
struct Truncated : LogScenario
{
    Plan generate(Rng& rng, bool) override
    {
        Plan p;
        GenOpt o;
        o.max_streams = 5;
        o.max_recs = 120;
        std::vector<int64_t> keys;
        if (rng.chance(0.5)) genIo(rng, p);
        const int64_t start = rng.range(1000000000, 2000000000);
        std::vector<int> slots, tps, cnt;
        genLog(rng, p, o, start, -1, keys, &slots, &tps, &cnt);
        // damage: some streams are cut (in the file afterwards, or by storage that fills up / fails)
        const int nd = (int)rng.range(1, 2);
        std::vector<Op> cuts;
        for (int d = 0; d < nd; ++d)
        {
            const int s = slots[rng.below(slots.size())];
            const int64_t rb = (int64_t)types()[tps[s]].bytes;
            const int64_t size = rb * cnt[s];
            int64_t at;
            switch (rng.below(4))
            {
            case 0: at = (int64_t)rng.below(size + 1); break;
            case 1: at = rb * (int64_t)rng.below(cnt[s] + 1); break;                   // record boundary
            case 2: at = rb * (int64_t)rng.below(cnt[s] + 1) + rng.range(1, 16); break;  // inside a stamp
            default: at = std::max<int64_t>(0, rb * (int64_t)rng.below(cnt[s] + 1) - rng.range(1, 3));
            }
            at = std::min(at, size);
            if (rng.chance(0.5))
            {
                // must be in force before the first byte is written
                Op op{"quota", {tok(s), tok(at), tok(rng.chance(0.3))}};
                for (size_t k = 0; k < p.ops.size(); ++k)
                    if (p.ops[k].name == "stream" && p.ops[k].i(0) == s) { p.ops.insert(p.ops.begin() + k + 1, op); break; }
            }
            else
                cuts.push_back(Op{"cut", {tok(s), tok(at)}});
        }
        addClose(rng, p, start + rng.range(0, 5000));
        for (auto& c : cuts) p.ops.push_back(c);
        return p;
    }
    void execute(const Plan& p, Run& run) override
    {
        World w(run);
        startDisk(run, p);
        w.write(p);
        if (w.logs.empty()) return;
        for (auto& op : p.ops)
        {
            if (op.name != "cut") continue;
            auto it = w.logs[0].streams.find((int)op.i(0));
            if (it == w.logs[0].streams.end()) continue;
            StreamModel& s = it->second;
            struct stat st;
            if (stat(s.file.c_str(), &st) != 0) run.fail("stream-missing", "no data file for key %d", s.key);
            const int64_t at = std::min<int64_t>(op.i(1), st.st_size);
            if (truncate(s.file.c_str(), at) != 0) continue;
            const int64_t n = at / (int64_t)types()[s.type].bytes;
            s.intact = s.intact < 0 ? std::min<int64_t>(n, (int64_t)s.recs.size()) : std::min(s.intact, n);
            run.fault("truncated-file");
            if (at % (int64_t)types()[s.type].bytes) run.fault("torn-record");
            run.state(mix(at % (int64_t)types()[s.type].bytes, s.type));
        }
        for (auto& s : w.logs[0].streams)
            if (s.second.intact >= 0 && s.second.intact < (int64_t)s.second.recs.size()) run.nontrivial();
        UTCTime a, b;
        auto vis = w.visible(0, a, b);
        w.read(0, w.logs[0].dir, keysOf(vis), false);
        w.finishStats();
    }
};
DST_SCENARIO("C03", Truncated)

// ================================================================= C04 unreadable storage
struct Unreadable : LogScenario
{
    Plan generate(Rng& rng, bool) override
    {
        Plan p;
        GenOpt o;
        o.max_streams = 5;
        o.max_recs = 200;
        std::vector<int64_t> keys;
        if (rng.chance(0.5)) genIo(rng, p);
        const int64_t start = rng.range(1000000000, 2000000000);
        std::vector<int> slots, tps, cnt;
        genLog(rng, p, o, start, -1, keys, &slots, &tps, &cnt);
        addClose(rng, p, start + rng.range(0, 5000));
        const int nd = (int)rng.range(1, 3);
        for (int d = 0; d < nd; ++d)
        {
            const int s = slots[rng.below(slots.size())];
            const int64_t rb = (int64_t)types()[tps[s]].bytes;
            const int64_t size = rb * cnt[s];
            if (rng.chance(0.2))
                p.add("remove", {s});
            else if (rng.chance(0.1))
                p.add("readfail", {s, 0});
            else
                p.add("readfail", {s, rng.chance(0.5) ? (int64_t)rng.below(size + 1) : rb * (int64_t)rng.below(cnt[s] + 1)});
        }
        return p;
    }
    void execute(const Plan& p, Run& run) override
    {
        World w(run);
        startDisk(run, p);
        w.write(p);
        if (w.logs.empty()) return;
        const std::vector<disk::Rule> base = disk::rules;
        for (auto& op : p.ops)
        {
            auto it = w.logs[0].streams.find((int)op.i(0));
            if (op.name == "remove" && it != w.logs[0].streams.end())
            {
                unlink(it->second.file.c_str());
                it->second.gone = true;
                run.fault("missing-file");
                run.nontrivial();
            }
            if (op.name == "readfail" && it != w.logs[0].streams.end())
            {
                StreamModel& s = it->second;
                disk::Rule r = base[0];
                r.suffix = s.file.substr(run.scratch.size());
                r.rfail_at = op.i(1);
                // the strictest of several failures of one file
                for (auto& q : disk::rules)
                    if (q.suffix == r.suffix && q.rfail_at >= 0) r.rfail_at = std::min(r.rfail_at, q.rfail_at);
                disk::rules.insert(disk::rules.begin(), r);
                const int64_t n = r.rfail_at / (int64_t)types()[s.type].bytes;
                s.intact = std::min<int64_t>(n, (int64_t)s.recs.size());
                run.state(mix(r.rfail_at % (int64_t)types()[s.type].bytes, s.type));
                if (s.intact < (int64_t)s.recs.size()) run.nontrivial();
            }
        }
        UTCTime a, b;
        auto vis = w.visible(0, a, b);
        w.read(0, w.logs[0].dir, keysOf(vis), false);
        // the trouble passes: the log is still complete
        disk::rules = base;
        for (auto& s : w.logs[0].streams) s.second.intact = -1;
        w.read(0, w.logs[0].dir, keysOf(vis), true);
        w.finishStats();
    }
};
DST_SCENARIO("C04", Unreadable)

// ================================================================= C05 self-describing format
struct SelfDescribing : LogScenario
{
    Plan generate(Rng& rng, bool) override
    {
        Plan p;
        GenOpt o;
        o.max_streams = 8;
        o.max_recs = 30;
        o.monotone = rng.chance(0.5);
        genIo(rng, p);
        std::vector<int64_t> keys;
        const int64_t start = rng.range(1000000000, 2000000000);
        genLog(rng, p, o, start, -1, keys);
        addClose(rng, p, start + rng.range(0, 5000));
        return p;
    }
    // One field of the description: path, element type, number of elements, in storage order.
    struct Field { std::string path; int type; int count; int rows; };
    static void walk(const YAML::Node& n, const std::string& path, std::vector<Field>& out, Run& run)
    {
        if (!n.IsMap()) run.fail("bad-description", "%s is not described", path.c_str());
        if (n["type"] && n["type"].IsScalar())
        {
            const int rows = n["rows"] ? n["rows"].as<int>() : 1, cols = n["cols"] ? n["cols"].as<int>() : 1;
            out.push_back({path, n["type"].as<int>(), rows * cols, rows});
            return;
        }
        for (auto it = n.begin(); it != n.end(); ++it)
            walk(it->second, path.empty() ? it->first.as<std::string>() : path + "." + it->first.as<std::string>(), out, run);
    }
    void execute(const Plan& p, Run& run) override
    {
        World w(run);
        startDisk(run, p);
        w.write(p);
        if (w.logs.empty()) return;
        disk::enabled = false;
        // The manifest names every stream...
        YAML::Node man = YAML::LoadFile(w.logs[0].dir + "/manifest.yml");
        std::map<int, std::string> names;
        for (size_t k = 0; k < man["keys"].size(); ++k)
            names[man["keys"][k].as<int>()] = man["key_names"][k].as<std::string>();
        for (auto& kv : w.logs[0].streams)
        {
            StreamModel& s = kv.second;
            if (!names.count(s.key)) run.fail("manifest", "key %d is missing from the manifest", s.key);
            // ... and a reader that knows nothing but the files decodes it.
            const std::string stem = w.logs[0].dir + "/" + names[s.key];
            YAML::Node d = YAML::LoadFile(stem + ".yml");
            if (d["key"].as<int>() != s.key) run.fail("manifest", "key %d: description is for key %d", s.key, d["key"].as<int>());
            if (d["num_records"].as<int64_t>() != (int64_t)s.recs.size())
                run.fail("record-count", "key %d: %lld records described, %zu written", s.key, (long long)d["num_records"].as<int64_t>(), s.recs.size());
            std::vector<Field> f;
            walk(d["format"], "", f, run);
            size_t rec = 0;
            for (auto& x : f)
            {
                if (typeSize(x.type) < 0) run.fail("bad-description", "key %d: field %s has an unknown type", s.key, x.path.c_str());
                rec += (size_t)typeSize(x.type) * x.count;
            }
            FILE* fp = fopen((stem + ".log").c_str(), "rb");
            if (!fp) run.fail("stream-missing", "key %d: no data file", s.key);
            std::vector<unsigned char> data;
            unsigned char buf[4096];
            size_t n;
            while ((n = fread(buf, 1, sizeof buf, fp)) > 0) data.insert(data.end(), buf, buf + n);
            fclose(fp);
            const std::string& tn = types()[s.type].name;
            if (data.size() != rec * s.recs.size())
                run.fail("layout-size", "key %d (%s): %zu bytes stored, %zu records of %zu bytes described", s.key, tn.c_str(), data.size(), s.recs.size(), rec);
            run.state(s.type);
            for (size_t k = 0; k < s.recs.size(); ++k)
            {
                Leaves want = types()[s.type].make(s.recs[k].seed), got;
                Leaves stamp;
                flat(s.recs[k].sec, "t.sec", stamp);
                flat(s.recs[k].nsec, "t.nsec", stamp);
                want.insert(want.begin(), stamp.begin(), stamp.end());
                size_t off = k * rec;
                for (auto& x : f)
                {
                    Leaf l{x.path, x.type, x.count, false, {}, x.rows};
                    const size_t b = (size_t)typeSize(x.type) * x.count;
                    l.bytes.assign(data.begin() + off, data.begin() + off + b);
                    off += b;
                    got.push_back(l);
                }
                if (want.size() != got.size())
                    run.fail("layout-fields", "key %d (%s): %zu fields described, a record has %zu", s.key, tn.c_str(), got.size(), want.size());
                // by name, so a reader that looks a field up gets that field
                for (auto& l : want)
                {
                    bool found = false;
                    for (auto& g : got)
                    {
                        if (g.path != l.path) continue;
                        found = true;
                        if (!sameLeaf(l, g))
                            run.fail("layout-value", "key %d (%s) record %zu: field %s decodes to something else", s.key, tn.c_str(), k, l.path.c_str());
                        if (l.rows != g.rows)
                            run.fail("layout-shape", "key %d (%s): field %s is described with %d rows, it has %d", s.key, tn.c_str(), l.path.c_str(), g.rows, l.rows);
                    }
                    if (!found) run.fail("layout-fields", "key %d (%s): field %s is not described", s.key, tn.c_str(), l.path.c_str());
                }
                run.nontrivial();
                run.ops();
            }
            run.ev("stream %d %s %zu", s.key, tn.c_str(), s.recs.size());
        }
        w.finishStats();
    }
};
DST_SCENARIO("C05", SelfDescribing)

// ================================================================= C06 isolation and amended logs
struct Amended : LogScenario
{
    Plan generate(Rng& rng, bool) override
    {
        Plan p;
        GenOpt o;
        o.max_streams = 6;
        o.max_recs = 60;
        o.hard_keys = true;
        std::vector<int64_t> keys;
        if (rng.chance(0.3)) genIo(rng, p);
        int64_t start = rng.range(1000000000, 2000000000);
        const int nl = (int)rng.range(1, 4);
        for (int l = 0; l < nl; ++l)
        {
            const int amends = l == 0 || rng.chance(0.15) ? -1 : (int)rng.below(l);
            if (rng.chance(0.05))
            {
                // a log without streams
                p.add("newlog", {start, (int64_t)rng.below(1000000000), amends, rng.chance(0.3)});
                addClose(rng, p, start + rng.range(0, 500));
                start += rng.range(1, 100000);
                continue;
            }
            genLog(rng, p, o, start, amends, keys);
            addClose(rng, p, start + rng.range(0, 500));
            // later logs usually start later, sometimes earlier (reprocessing, clock set back)
            start += rng.chance(0.8) ? rng.range(1, 100000) : -rng.range(1, 100000);
        }
        p.set("open", (int64_t)rng.below(3));  // 0: the log, 1: the directory of logs, 2: the log with a slash behind it
        p.set("which", (int64_t)rng.below(nl));
        p.set("junk", (int64_t)rng.below(64));
        return p;
    }
    void execute(const Plan& p, Run& run) override
    {
        World w(run);
        startDisk(run, p);
        w.write(p);
        if (w.logs.empty()) return;
        // two logs that would share a name (same second) are out of scope
        std::set<std::string> ids;
        for (auto& l : w.logs) if (!ids.insert(l.id).second) return;
        const int64_t junk = p.get("junk");
        if (junk & 1) fs::create_directories(w.base + "/zz_not_a_log");
        if (junk & 2) { FILE* f = fopen((w.base + "/notes.txt").c_str(), "w"); if (f) fclose(f); }
        if (junk & 4) fs::create_directories(w.base + "/99999999_9999");
        if (junk & 8) { FILE* f = fopen((w.base + "/20991231_235959.tar").c_str(), "w"); if (f) fclose(f); }
        if (junk & 16) fs::create_directories(w.base + "/20991231_235959_plots");
        if (junk & 32) fs::create_directories(w.base + "/old_20991231_235959");
        int k = (int)(p.get("which") % (int64_t)w.logs.size());
        std::string path = w.logs[k].dir + (p.get("open") == 2 ? "/" : "");
        if (p.get("open") == 1)
        {
            // a directory of logs: the most recent one is meant
            path = w.base;
            k = 0;
            for (int i = 0; i < (int)w.logs.size(); ++i) if (w.logs[k].start < w.logs[i].start) k = i;
            run.probe("opened-latest");
        }
        UTCTime a, b;
        auto vis = w.visible(k, a, b);
        w.read(k, path, keysOf(vis), true);
        if (vis.size() > 1) run.nontrivial();
        int depth = 0;
        for (int i = k; i >= 0; i = w.logs[i].amends) ++depth;
        run.probe("amend-depth-" + std::to_string(depth));
        run.state(mix(depth, vis.size()));
        // writing the later logs must not have touched any earlier one
        for (int i = 0; i < (int)w.logs.size(); ++i)
        {
            auto v = w.visible(i, a, b);
            w.read(i, w.logs[i].dir, keysOf(v), true);
        }
        w.finishStats();
    }
};
DST_SCENARIO("C06", Amended)

// ================================================================= C07 periodic maintenance while reading
struct Maintenance : LogScenario
{
    Plan generate(Rng& rng, bool) override
    {
        Plan p;
        GenOpt o;
        o.max_streams = 4;
        o.max_recs = 150;
        std::vector<int64_t> keys;
        if (rng.chance(0.3)) genIo(rng, p);
        const int64_t start = rng.range(1000000000, 2000000000);
        genLog(rng, p, o, start, -1, keys);
        addClose(rng, p, start + 1000);
        const int nm = (int)rng.range(1, 3);
        for (int m = 0; m < nm; ++m)
            p.add("maint", {rng.chance(0.5) ? rng.range(1, 40) * 50 : rng.range(1, 5000), rng.chance(0.4) ? rng.range(1, 12) : 0});
        return p;
    }
    void execute(const Plan& p, Run& run) override
    {
        World w(run);
        startDisk(run, p);
        w.write(p);
        if (w.logs.empty()) return;
        UTCTime a, b;
        auto vis = w.visible(0, a, b);
        LogReader reader(w.logs[0].dir);
        struct M { int64_t period_ms; int stop_at; int calls; bool returned_error; };
        std::vector<M> ms;
        for (auto& op : p.ops) if (op.name == "maint") ms.push_back({op.i(0), (int)op.i(1), 0, false});
        // history: 'm' maintenance call, 'd' delivery
        struct H { char what; int idx; int64_t sec, nsec; };
        std::vector<H> hist;
        bool stopped = false;
        for (size_t i = 0; i < ms.size(); ++i)
            reader.setMaintenanceCallback(ms[i].period_ms * 1e-3, [&, i](const UTCTime& t) {
                if (stopped) run.fail("called-after-stop", "maintenance call %zu after the reading was told to stop", i);
                hist.push_back({'m', (int)i, t.sec, t.nsec});
                run.ev("maint %zu %lld.%09lld", i, (long long)t.sec, (long long)t.nsec);
                if (++ms[i].calls == ms[i].stop_at)
                {
                    stopped = true;
                    run.fault("stop-request");
                    return mc::Error::create("enough");
                }
                return mc::Error::none();
            });
        size_t limit = 64, total = 0;
        for (auto& kv : vis) total += kv.second->recs.size();
        limit += total;
        for (auto& kv : vis)
        {
            const StreamModel* s = kv.second;
            reader.setCallback(kv.first, [&, s](const UTCTime& t, int, StreamReader& rd) {
                if (hist.size() > limit * 10) run.fail("no-progress", "too many deliveries");
                if (stopped) run.fail("called-after-stop", "record delivered after the reading was told to stop");
                Leaves l;
                types()[s->type].read(rd, l);
                hist.push_back({'d', s->key, t.sec, t.nsec});
                run.ev("rec %d %lld.%09lld", s->key, (long long)t.sec, (long long)t.nsec);
            });
        }
        reader.read();
        size_t delivered = 0;
        for (auto& h : hist) delivered += h.what == 'd';
        if (!stopped && delivered != total) run.fail("lost-record", "%zu of %zu records delivered", delivered, total);
        // Reference schedule: before each record, a callback whose due time has come is called once and
        // its due time moves on by one period.  Due times are compared at the time quantization of the
        // system, so a call within one quantum of its due time is right either way.
        const double Q = 2.5e-4;
        std::vector<double> due(ms.size(), 0.0);  // relative to the start of the log
        const int64_t s0 = w.logs[0].start.sec, n0 = w.logs[0].start.nsec;
        size_t k = 0;
        std::vector<int> called(ms.size(), 0);
        while (k < hist.size())
        {
            // group: maintenance calls directly before one record
            size_t e = k;
            std::vector<int> cnt(ms.size(), 0);
            while (e < hist.size() && hist[e].what == 'm') { ++cnt[hist[e].idx]; ++e; }
            const H& ref = e < hist.size() ? hist[e] : hist[e - 1];
            const double t = (double)(ref.sec - s0) + 1e-9 * (double)(ref.nsec - n0);
            const bool last_group = e >= hist.size();
            for (size_t i = 0; i < ms.size(); ++i)
            {
                if (cnt[i] > 1) run.fail("called-twice", "maintenance %zu called %d times before one record", i, cnt[i]);
                if (cnt[i] == 1 && t < due[i] - Q)
                    run.fail("called-early", "maintenance %zu (every %lld ms) called at %.6f s, due at %.6f", i, (long long)ms[i].period_ms, t, due[i]);
                if (cnt[i] == 0 && t > due[i] + Q && !last_group)
                    run.fail("not-called", "maintenance %zu (every %lld ms) due at %.6f s was not called before the record at %.6f", i, (long long)ms[i].period_ms, due[i], t);
                if (cnt[i]) { due[i] += ms[i].period_ms * 1e-3; run.probe("maintenance-calls"); }
            }
            for (size_t j = k; j < e; ++j)
                if (e < hist.size() && (hist[j].sec != ref.sec || hist[j].nsec != ref.nsec))
                    run.fail("wrong-time", "maintenance was told %lld.%09lld, the record is at %lld.%09lld", (long long)hist[j].sec, (long long)hist[j].nsec, (long long)ref.sec, (long long)ref.nsec);
            k = e + 1;
        }
        if (stopped && (hist.empty() || hist.back().what != 'm')) run.fail("called-after-stop", "reading went on after the stop");
        if (delivered > 3 && !ms.empty()) run.nontrivial();
        for (auto& m : ms) run.state(mix(m.calls, m.period_ms));
        w.finishStats();
    }
};
DST_SCENARIO("C07", Maintenance)

// ================================================================= C29 the Python reader
struct PythonReader : LogScenario
{
    double watchdogSec() const override { return 120; }
    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p;
        GenOpt o;
        o.max_streams = 8;
        o.max_recs = thorough && rng.chance(0.1) ? 2000 : 80;
        o.monotone = rng.chance(0.7);
        o.hard_keys = rng.chance(0.5);
        std::vector<int64_t> keys;
        if (rng.chance(0.5)) genIo(rng, p);
        int64_t start = rng.range(1000000000, 2000000000);
        const int nl = (int)(rng.chance(0.4) ? 1 : rng.range(2, 4));
        std::vector<Op> cuts;
        for (int l = 0; l < nl; ++l)
        {
            const int amends = l == 0 || rng.chance(0.15) ? -1 : (int)rng.below(l);
            std::vector<int> slots, tps, cnt;
            if (rng.chance(0.05))
            {
                // a log without streams
                p.add("newlog", {start, (int64_t)rng.below(1000000000), amends, rng.chance(0.3)});
                addClose(rng, p, start + rng.range(0, 500));
                start += rng.range(1, 100000);
                continue;
            }
            genLog(rng, p, o, start, amends, keys, &slots, &tps, &cnt);
            addClose(rng, p, start + rng.range(0, 500));
            while (rng.chance(0.35))
            {
                // a data file that was not written to its end
                const int s = (int)rng.below(slots.size());
                const int64_t rb = (int64_t)types()[tps[s]].bytes, size = rb * cnt[s];
                const int64_t at = rng.chance(0.5) ? (int64_t)rng.below(size + 1) : rb * (int64_t)rng.below(cnt[s] + 1) + rng.range(-9, 17);
                cuts.push_back(Op{"cut", {tok(l), tok(slots[s]), tok(std::max<int64_t>(0, std::min(at, size)))}});
            }
            start += rng.chance(0.8) ? rng.range(1, 100000) : -rng.range(1, 100000);
        }
        for (auto& c : cuts) p.ops.push_back(c);
        p.set("open", (int64_t)rng.below(3));  // 0: the log, 1: the log with a slash behind it, 2: the directory of logs
        p.set("which", (int64_t)rng.below(nl));
        p.set("junk", (int64_t)rng.below(64));
        p.set("normalize", (int64_t)rng.below(4) != 0);
        return p;
    }
    struct Blob
    {
        std::vector<unsigned char> d;
        size_t at = 0;
        bool bad = false;
        int64_t i64() { int64_t v = 0; take(&v, 8); return v; }
        void take(void* to, size_t n)
        {
            if (n > d.size() - at) { bad = true; return; }
            memcpy(to, d.data() + at, n);
            at += n;
        }
    };
    static Blob slurp(const std::string& f)
    {
        Blob b;
        FILE* fp = fopen(f.c_str(), "rb");
        if (!fp) return b;
        unsigned char buf[65536];
        size_t n;
        while ((n = fread(buf, 1, sizeof buf, fp)) > 0) b.d.insert(b.d.end(), buf, buf + n);
        fclose(fp);
        return b;
    }
    void execute(const Plan& p, Run& run) override
    {
        World w(run);
        startDisk(run, p);
        w.write(p);
        disk::enabled = false;
        if (w.logs.empty()) return;
        std::set<std::string> ids;
        for (auto& l : w.logs) if (!ids.insert(l.id).second) return;
        for (auto& op : p.ops)
        {
            if (op.name != "cut" || op.i(0) >= (int64_t)w.logs.size()) continue;
            auto& ss = w.logs[op.i(0)].streams;
            auto it = ss.find((int)op.i(1));
            if (it == ss.end()) continue;
            StreamModel& s = it->second;
            struct stat st;
            if (stat(s.file.c_str(), &st) != 0) run.fail("stream-missing", "no data file for key %d", s.key);
            const int64_t at = std::min<int64_t>(op.i(2), st.st_size);
            if (truncate(s.file.c_str(), at) != 0) continue;
            s.intact = at / (int64_t)types()[s.type].bytes;
            run.fault("truncated-file");
            if (at % (int64_t)types()[s.type].bytes) run.fault("torn-record");
        }
        const int64_t junk = p.get("junk");
        auto touch = [&](const char* n) { FILE* f = fopen((w.base + "/" + n).c_str(), "w"); if (f) fclose(f); };
        if (junk & 1) fs::create_directories(w.base + "/zz_not_a_log");
        if (junk & 2) touch("notes.txt");
        if (junk & 4) fs::create_directories(w.base + "/99999999_9999");
        if (junk & 8) touch("20991231_235959.tar");
        if (junk & 16) fs::create_directories(w.base + "/20991231_235959_plots");
        if (junk & 32) fs::create_directories(w.base + "/old_20991231_235959");
        int k = (int)(p.get("which") % (int64_t)w.logs.size());
        std::string path = w.logs[k].dir + (p.get("open") == 1 ? "/" : "");
        if (p.get("open") == 2)
        {
            path = w.base;
            k = 0;
            for (int i = 0; i < (int)w.logs.size(); ++i) if (w.logs[k].start < w.logs[i].start) k = i;
            run.probe("opened-latest");
        }
        UTCTime a, b;
        auto vis = w.visible(k, a, b);
        // ---- the reader, in a process of its own
        const std::string out = run.scratch + "/read.out";
        const char* repo = getenv("DST_REPO") ? getenv("DST_REPO") : "/repo";
        const std::string script = std::string(getenv("DST_SIM") ? getenv("DST_SIM") : "/verif/sim") + "/pyread.py";
        const bool norm = p.get("normalize");
        const pid_t pid = fork();
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            const int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            if (!getenv("DST_STDOUT")) dup2(nul, 2);
            execl("/usr/bin/python3", "python3", script.c_str(), repo, path.c_str(), norm ? "1" : "0", out.c_str(), (char*)nullptr);
            _exit(127);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
        run.ops();
        Blob o = slurp(out);
        if (o.d.empty())
        {
            // (no interpreter is no finding)
            if (WIFEXITED(status) && WEXITSTATUS(status) == 127) { fprintf(stderr, "cannot run python3\n"); _exit(77); }
            run.fail("python-crash", "the reader ended with status %d and returned nothing", status);
        }
        if (o.d[0] == 'E')
            run.fail("python-error", "the reader refused log %d: %.*s", k, (int)std::min<size_t>(o.d.size() - 1, 300), (const char*)o.d.data() + 1);
        o.at = 1;
        const int64_t nk = o.i64();
        std::set<int64_t> seen;
        size_t total = 0;
        for (int64_t i = 0; i < nk && !o.bad; ++i)
        {
            const int64_t key = o.i64(), nrec = o.i64(), nl = o.i64();
            auto it = vis.find((int)key);
            if (it == vis.end()) run.fail("fabricated", "the reader returns key %lld, which the log lacks", (long long)key);
            if (!seen.insert(key).second) run.fail("fabricated", "key %lld returned twice", (long long)key);
            const StreamModel& s = *it->second;
            const auto& ty = types()[s.type];
            const int64_t n = s.intact >= 0 ? std::min<int64_t>(s.intact, (int64_t)s.recs.size()) : (int64_t)s.recs.size();
            if (nrec != n)
                run.fail(nrec < n ? "lost-record" : "extra-record", "key %lld (%s): %lld records returned, %lld are stored", (long long)key, ty.name.c_str(), (long long)nrec, (long long)n);
            std::map<std::string, std::pair<Leaf, std::vector<unsigned char>>> cols;
            for (int64_t l = 0; l < nl && !o.bad; ++l)
            {
                const int64_t len = o.i64(), code = o.i64(), count = o.i64(), rows = o.i64();
                if (len < 0 || len > 1000 || typeSize((int)code) < 0 || count < 0 || count > 100000) { o.bad = true; break; }
                std::string name(len, 0);
                o.take(&name[0], len);
                std::vector<unsigned char> raw((size_t)(nrec * count * typeSize((int)code)));
                o.take(raw.data(), raw.size());
                if (cols.count(name)) run.fail("layout-fields", "key %lld (%s): two fields %s", (long long)key, ty.name.c_str(), name.c_str());
                cols[name] = {Leaf{name, (int)code, (int)count, false, {}, (int)rows}, raw};
            }
            if (o.bad) break;
            size_t nwant = 0;
            for (int64_t r = 0; r < n; ++r)
            {
                const Rec& rec = s.recs[r];
                Leaves want = ty.make(rec.seed);
                flat(rec.sec, norm ? "stamp.sec" : "t.sec", want);
                flat(rec.nsec, norm ? "stamp.nsec" : "t.nsec", want);
                if (norm) flat((double)rec.sec + (double)rec.nsec / 1e9, "t", want);
                if (norm) { want.back().approx = true; }
                nwant = want.size();
                for (auto& l : want)
                {
                    auto c = cols.find(l.path);
                    if (c == cols.end())
                        run.fail("field-missing", "key %lld (%s): no field %s", (long long)key, ty.name.c_str(), l.path.c_str());
                    Leaf g = c->second.first;
                    const size_t b = (size_t)g.count * typeSize(g.type);
                    g.bytes.assign(c->second.second.begin() + r * b, c->second.second.begin() + (r + 1) * b);
                    if (norm && l.path == "t" && g.type == 0 && g.count == 1)
                    {
                        // seconds: as exact as a number of this size can be
                        double x, y;
                        memcpy(&x, l.bytes.data(), 8);
                        memcpy(&y, g.bytes.data(), 8);
                        if (!(std::fabs(x - y) <= 1e-6))
                            run.fail("time-seconds", "key %lld record %lld: time %.9f s, written %lld.%09lld", (long long)key, (long long)r, y, (long long)rec.sec, (long long)rec.nsec);
                        continue;
                    }
                    if (!sameLeaf(l, g))
                        run.fail("field-value", "key %lld (%s) record %lld of %lld: field %s reads as something else", (long long)key, ty.name.c_str(), (long long)r, (long long)n, l.path.c_str());
                    if (l.rows != g.rows)
                        run.fail("field-shape", "key %lld (%s): field %s has %d rows, written with %d", (long long)key, ty.name.c_str(), l.path.c_str(), g.rows, l.rows);
                }
            }
            if (n > 0 && cols.size() != nwant)
                run.fail("layout-fields", "key %lld (%s): %zu fields returned, a record has %zu", (long long)key, ty.name.c_str(), cols.size(), nwant);
            total += (size_t)n;
            run.ops(n);
            run.state(mix(s.type, std::min<int64_t>(n, 40)));
            run.ev("key %lld %s %lld", (long long)key, ty.name.c_str(), (long long)n);
        }
        if (o.bad) run.fail("python-crash", "the reader's result is incomplete");
        for (auto& kv : vis)
            if (!seen.count(kv.first)) run.fail("lost-stream", "key %d is in the log but not returned", kv.first);
        if (total > 3 && vis.size() > 1) run.nontrivial();
        run.probe("records", (int64_t)total);
        w.finishStats();
    }
};
DST_SCENARIO("C29", PythonReader)

}  // namespace
