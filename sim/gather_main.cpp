// The collecting program end to end (C24): receiver, link, host clock and storage are simulated, the
// program itself (protocol parser, ephemeris parsers, log writer) runs for real from its main() on.
#include <signal.h>
#include <memory>

#include <experimental/filesystem>

#include "async_comm/serial.h"
#include "common/logging/log_key.h"
#include "common/logging/log_reader.h"
#include "common/measurements/gnss_observation.h"
#include "core.h"
#include "nav.h"
#include "ubx_wire.h"

int gather_main(int argc, char** argv);

using namespace dst;
using namespace nav;
namespace fs = std::experimental::filesystem;

namespace {

constexpr int64_t NS = 1000000000ll;
const char* SYS[3] = {"GPS", "Galileo", "GLONASS"};
const int FIRST[3] = {1, 0, 1}, PARTS[3] = {3, 6, 5};
const uint8_t GNSS[3] = {0, 2, 6};

int64_t gloTime(int64_t gps) { return gps + mc::UTCTime::GPS_UTC_OFFSET - 820454400 + 10800; }

template <typename S> S makeIssue(Rng& r, int sat, int64_t at, int code);
template <> Gps makeIssue<Gps>(Rng& r, int sat, int64_t at, int code) { return Gps::make(r, sat, at, code); }
template <> Gal makeIssue<Gal>(Rng& r, int sat, int64_t at, int code) { return Gal::make(r, sat, at, code); }
template <> Glo makeIssue<Glo>(Rng& r, int sat, int64_t at, int code)
{
    const int64_t g = gloTime(at);
    Glo e = Glo::make(r, sat, g, code);
    e.tb = std::max<int64_t>(1, std::min<int64_t>(95, (g % 86400 + r.range(-7000, 7000)) / 900));
    return e;
}
int64_t toeOf(const Gps& e) { return e.toe_abs + mc::UTCTime::GPS_UTC_OFFSET; }
int64_t toeOf(const Gal& e) { return e.toe_abs + mc::UTCTime::GPS_UTC_OFFSET; }
int64_t toeOf(const Glo& e) { return 820454400 - 10800 + ((e.n4 - 1) * 1461 + e.nt - 1) * 86400ll + e.tb * 900; }

// A part of an ephemeris that reached the program undamaged
struct Event
{
    int64_t wall;
    int sat, slot;
    size_t part, issue;
    int64_t tick;      // GLONASS: time of day of the string, as broadcast
    uint16_t tail;     // Galileo
    bool before_stop;
    int set;           // number of the clean set it belongs to, or -1
};
struct CleanSet { int sat; int slot; size_t issue; int64_t from, to; int parts; bool whole, in_time; };

template <typename Sys>
struct Sky
{
    struct Sat { int id; std::vector<Sys> issues; };
    std::vector<Sat> sats;
    std::vector<Event> events;
    std::vector<CleanSet> sets;
    std::vector<Sys> ticked;  // copies of GLONASS issues as broadcast (by event)
};

struct Obs { int64_t wall; double t, freq, pr, dop, cp; int64_t t_s; int gnss, sat; bool before_stop; };

struct Gather : Scenario
{
    double watchdogSec() const override { return 30; }

    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p;
        p.set("at", rng.range(2100, 3000) * 604800ll + (rng.chance(0.3) ? rng.range(-3600, 3600) : rng.range(0, 604799)));
        p.set("ns", (int64_t)rng.below(1000000000));
        p.set("skew", rng.chance(0.5) ? 0 : rng.chance(0.7) ? rng.range(-600, 600) * NS : rng.range(-9000, 9000) * NS + (int64_t)rng.below(1000000000));
        p.set("reply", rng.chance(0.15) ? -1 : rng.range(0, 1300));
        p.set("fill", (int64_t)rng.below(256));
        p.set("chunk", rng.chance(0.3) ? 1 : rng.chance(0.5) ? rng.range(2, 40) : 4096);
        p.set("made", rng.chance(0.5));
        if (rng.chance(0.3)) p.set("short", rng.range(1, 4));
        if (rng.chance(0.3)) p.set("eintr", rng.range(2, 4));
        p.set("early", rng.chance(0.3) ? (int64_t)(rng.u64() >> 2) : 0);
        int n[3], issues[3][4] = {};
        int at_frame[3][4] = {};
        // the same numbers in all constellations
        const int base = (int)rng.range(1, 18);
        for (int s = 0; s < 3; ++s)
        {
            n[s] = (int)rng.range(s == 0 ? 1 : 0, 3);
            const std::string k = std::string("sats") + char('0' + s);
            p.set(k, n[s]);
            // (Galileo goes beyond 31; some satellites are a power of two apart)
            const int stride = rng.chance(0.6) ? 1 : 1 << rng.range(1, s == 1 ? 5 : 3), top = s == 0 ? 32 : s == 1 ? 36 : 24;
            while (n[s] > 1 && 1 + (n[s] - 1) * stride > top) p.set(k, --n[s]);
            const int most = top - std::max(0, n[s] - 1) * stride;
            p.set(std::string("first") + char('0' + s), rng.chance(0.5) ? std::min(base, most) : rng.range(1, most));
            p.set(std::string("stride") + char('0' + s), stride);
            p.set(std::string("code") + char('0' + s), (int64_t)rng.below(s == 0 ? 256 : s == 1 ? 1024 : 65000));
        }
        auto dt = [&]() -> int64_t {
            if (rng.chance(0.03)) return rng.range(1, 400) * NS;
            if (rng.chance(0.3)) return rng.range(1, 2000000);
            return rng.range(1, 900) * 1000000 + (int64_t)rng.below(1000);
        };
        auto issue = [&](int s, int k) {
            p.add("issue", {s, k, (int64_t)(rng.u64() >> 2), rng.chance(0.8) ? rng.range(-600, 600) : rng.range(-5400, 5400)});
            ++issues[s][k];
            if (rng.chance(0.5)) at_frame[s][k] = 0;
        };
        for (int s = 0; s < 3; ++s)
            for (int k = 0; k < n[s]; ++k) issue(s, k);
        const int count = (int)rng.range(5, thorough ? 220 : 80);
        const double churn = rng.chance(0.5) ? 0.03 : 0.1, disorder = rng.chance(0.5) ? 0.03 : 0.2, damage = rng.chance(0.4) ? 0.02 : 0.15;
        auto fault = [&]() -> int64_t { return rng.chance(damage) ? rng.range(1, 5) : 0; };
        for (int q = 0; q < count; ++q)
        {
            int s;
            do s = (int)rng.below(3); while (!n[s]);
            const int k = (int)rng.below(n[s]);
            const int64_t seed = (int64_t)(rng.u64() >> 2);
            if (rng.chance(churn)) issue(s, k);
            if (rng.chance(0.08)) { p.add("clean", {dt(), s, k, (int64_t)rng.below(6), seed}); continue; }
            if (rng.chance(0.2)) { p.add("obs", {dt(), rng.chance(0.1) ? 0 : rng.chance(0.1) ? rng.range(40, 60) : rng.range(1, 12), seed, fault()}); continue; }
            if (rng.chance(0.1)) { p.add("other", {dt(), (int64_t)rng.below(5), s, k, seed, fault()}); continue; }
            if (rng.chance(0.04)) { p.add("noise", {dt(), rng.range(1, 60), seed}); continue; }
            if (rng.chance(0.02)) { p.add("jump", {dt(), (rng.chance(0.7) ? rng.range(-100, 100) : rng.range(-9000, 9000)) * NS + (int64_t)rng.below(1000000000)}); continue; }
            static const int order[3][6] = {{1, 2, 3, 1, 2, 3}, {2, 4, 0, 1, 3, 5}, {1, 2, 3, 4, 5, 1}};
            int which = order[s][at_frame[s][k] % PARTS[s]];
            if (rng.chance(disorder)) which = FIRST[s] + (int)rng.below(PARTS[s]);
            else ++at_frame[s][k];
            int64_t back = issues[s][k] > 1 && rng.chance(disorder) ? rng.range(1, issues[s][k] - 1) : 0;
            p.add("frame", {dt(), s, k, which, back, seed, fault()});
        }
        for (int s = 0; s < 3; ++s)
            for (int k = 0; k < n[s]; ++k)
                if (rng.chance(0.8)) p.add("clean", {dt(), s, k, (int64_t)rng.below(6), (int64_t)(rng.u64() >> 2)});
        const int late = rng.chance(0.3) ? (int)rng.range(1, 5) : 0;
        p.add("stop", {dt()});
        for (int q = 0; q < late; ++q)
            p.add("clean", {rng.range(1, 300) * 1000000, 0, (int64_t)rng.below(n[0]), (int64_t)rng.below(6), (int64_t)(rng.u64() >> 2)});
        return p;
    }
    bool keep(const Op& op) const override { return op.name == "issue" || op.name == "stop"; }

    // ------------------------------------------------------------------ the world of one run
    struct World
    {
        const Plan& p;
        Run& run;
        Sky<Gps> gps;
        Sky<Gal> gal;
        Sky<Glo> glo;
        std::vector<Obs> obs;
        async_comm::Comm* comm = nullptr;
        size_t next = 0;
        int64_t due = 0;          // monotonic time of the next operation
        bool streaming = false, stopped = false, closed = false, in_version = false, asked = false;
        int64_t reply_at = -1;
        int n_sets = 0;
        int64_t gps0;             // true time at monotonic zero (GPS seconds)
        Bytes sent;
        int64_t mono0 = 0, last = 0, advances = 0;

        World(const Plan& plan, Run& r) : p(plan), run(r) {}

        template <typename F> void with(int s, F f)
        {
            if (s == 0) f(gps);
            else if (s == 1) f(gal);
            else f(glo);
        }
        int64_t trueGps() const { return p.get("at") + (clk::mono_ns - mono0) / NS; }

        void init()
        {
            for (int s = 0; s < 3; ++s)
                with(s, [&](auto& sky) {
                    const int n = (int)std::max<int64_t>(0, std::min<int64_t>(4, p.get(std::string("sats") + char('0' + s))));
                    for (int k = 0; k < n; ++k)
                    {
                        sky.sats.emplace_back();
                        sky.sats.back().id = (int)(p.get(std::string("first") + char('0' + s), 1) + k * p.get(std::string("stride") + char('0' + s), 1));
                    }
                });
        }

        void deliver(const Bytes& b)
        {
            if (!comm) return;
            const int64_t c = std::max<int64_t>(1, p.get("chunk", 4096));
            for (size_t k = 0; k < b.size(); k += (size_t)c)
            {
                const size_t n = std::min<size_t>((size_t)c, b.size() - k);
                std::unique_ptr<uint8_t[]> copy(new uint8_t[n]);  // exactly as long as announced
                memcpy(copy.get(), b.data() + k, n);
                comm->deliver(copy.get(), n);
            }
        }
        static Bytes sfrbx(int gnss, int sat, const Bytes& words, Rng& r)
        {
            Bytes b = {(uint8_t)gnss, (uint8_t)sat, (uint8_t)r.below(256), (uint8_t)(r.below(14)), (uint8_t)(words.size() / 4), (uint8_t)r.below(60), 2, (uint8_t)r.below(256)};
            b.insert(b.end(), words.begin(), words.end());
            return b;
        }
        // fault: 1 a bit of the payload flips, 2 a bit of the check sum, 3 lost, 4 twice, 5 noise in front
        // returns how often the message arrives intact
        int send(uint8_t id, const Bytes& payload, int64_t fault, Rng& r, uint8_t cls = 0x02)
        {
            Bytes f;
            ubxw::append(f, cls, id, payload);
            run.ops();
            if ((fault == 1 && payload.size()) || fault == 2)
            {
                const size_t at = fault == 1 ? 6 + r.below(payload.size()) : f.size() - 2 + r.below(2);
                f[at] ^= (uint8_t)(1 << r.below(8));
                run.fault("link-bit-flip");
                deliver(f);
                return 0;
            }
            if (fault == 3) { run.fault("link-loss"); return 0; }
            if (fault == 5) { noise(1 + r.below(30), r); }
            deliver(f);
            if (fault == 4) return 2;
            return 1;
        }
        void noise(size_t n, Rng& r)
        {
            Bytes b(n);
            for (auto& x : b) do x = (uint8_t)r.below(256); while (x == 0xB5);
            b.push_back(0);
            run.fault("link-noise");
            deliver(b);
        }

        void part(int s, int k, int which, size_t issue, int64_t fault, Rng& r, int set)
        {
            with(s, [&](auto& sky) {
                auto& sat = sky.sats[k];
                const Bytes words = sat.issues[issue].frame(which, r);
                uint16_t tail = 0;
                if (s == 1) tail = Gal::tailOf(words);
                const Bytes m = sfrbx(GNSS[s], sat.id, words, r);
                for (int q = fault == 4 ? 2 : 1; q > 0; --q)
                {
                    if (q == 2) run.fault("link-duplicate");
                    const int n = send(0x13, m, fault == 4 ? 0 : fault, r);
                    if (n && streaming)
                    {
                        sky.events.push_back({clk::wall(), sat.id, k, (size_t)which, issue, 0, tail, !stopped, set});
                        run.ev("part %d %d %d %zu %lld", s, sat.id, which, issue, (long long)clk::wall());
                    }
                    if (q == 2) { clk::mono_ns += 1000; }
                }
            });
        }

        void observations(int n, int64_t seed, int64_t fault)
        {
            Rng r((uint64_t)seed);
            Bytes b(16 + 32 * (size_t)n);
            for (auto& x : b) x = (uint8_t)r.below(256);
            auto put8 = [&](size_t at, double v) { memcpy(&b[at], &v, 8); };
            const double tow = (double)(trueGps() % 604800) + (double)r.below(1000) * 1e-3 + (r.chance(0.5) ? r.uniform() * 1e-3 : 0);
            const int64_t week = trueGps() / 604800;
            put8(0, tow);
            b[8] = (uint8_t)week; b[9] = (uint8_t)(week >> 8); b[10] = 18; b[11] = (uint8_t)n; b[12] = 1; b[13] = 1;
            std::vector<Obs> want;
            for (int k = 0; k < n; ++k)
            {
                const size_t o = 16 + 32 * (size_t)k;
                static const uint8_t ids[6] = {0, 2, 6, 1, 3, 5};
                const int g = r.chance(0.85) ? (int)r.below(3) : 3 + (int)r.below(3);
                static const uint8_t sigs[6][4] = {{0, 3, 4, 0}, {0, 1, 5, 6}, {0, 2, 0, 2}, {0, 0, 0, 0}, {0, 1, 2, 3}, {0, 1, 4, 5}};
                uint8_t sig = sigs[g][r.below(4)];
                if (r.chance(0.1)) sig = (uint8_t)r.below(8);
                Obs w;
                const float dop = (float)r.uniform(-5000, 5000);
                w.pr = r.uniform(2e7, 2.7e7);
                w.cp = r.uniform(-1e8, 1.4e8);
                w.gnss = ids[g];
                w.sat = (int)r.range(1, 36);
                const uint8_t freq = (uint8_t)(g == 2 ? r.below(14) : r.below(256));
                put8(o, w.pr); put8(o + 8, w.cp);
                memcpy(&b[o + 16], &dop, 4);
                b[o + 20] = (uint8_t)w.gnss; b[o + 21] = (uint8_t)w.sat; b[o + 22] = sig; b[o + 23] = freq;
                w.freq = 0;
                if (g == 0) w.freq = sig == 0 ? 1575.42e6 : sig == 3 || sig == 4 ? 1227.60e6 : 0;
                if (g == 1) w.freq = sig == 0 || sig == 1 ? 1575.42e6 : sig == 5 || sig == 6 ? 1207.14e6 : 0;
                if (g == 2) w.freq = sig == 0 ? 1602e6 + 562500. * (freq - 7) : sig == 2 ? 1246e6 + 437500. * (freq - 7) : 0;
                if (w.freq == 0) { run.probe("unsupported-signals"); continue; }
                w.dop = -(double)dop * 299792458.0 / w.freq;
                w.t_s = week * 604800 + mc::UTCTime::GPS_UTC_OFFSET;
                w.t = tow;
                want.push_back(w);
            }
            for (int q = fault == 4 ? 2 : 1; q > 0; --q)
            {
                if (q == 2) run.fault("link-duplicate");
                if (send(0x15, b, fault == 4 ? 0 : fault, r) && streaming)
                    for (auto w : want)
                    {
                        w.wall = clk::wall();
                        w.before_stop = !stopped;
                        obs.push_back(w);
                    }
                if (q == 2) clk::mono_ns += 1000;
            }
        }

        void op(const Op& o)
        {
            auto sat = [&](int64_t s, int64_t k, int& so, int& ko, size_t& issues) {
                so = (int)((uint64_t)s % 3);
                ko = 0;
                issues = 0;
                with(so, [&](auto& sky) {
                    if (sky.sats.empty()) return;
                    ko = (int)((uint64_t)k % sky.sats.size());
                    issues = sky.sats[ko].issues.size();
                });
            };
            int s, k;
            size_t issues;
            if (o.name == "frame")
            {
                sat(o.i(1), o.i(2), s, k, issues);
                if (!issues) return;
                Rng r(o.u(5));
                const int which = FIRST[s] + (int)((uint64_t)(o.i(3) - FIRST[s]) % (uint64_t)PARTS[s]);
                const size_t back = (size_t)o.u(4) % issues;
                if (back) run.fault("late-part");
                part(s, k, which, issues - 1 - back, o.i(6), r, -1);
            }
            else if (o.name == "clean")
            {
                sat(o.i(1), o.i(2), s, k, issues);
                if (!issues) return;
                Rng r(o.u(4));
                static const int perm[6][3] = {{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}};
                static const int galp[6][6] = {{2, 4, 0, 1, 3, 5}, {2, 4, 1, 3, 5, 0}, {2, 0, 4, 1, 3, 5}, {2, 4, 0, 1, 3, 5}, {2, 4, 1, 3, 0, 5}, {2, 4, 0, 1, 3, 5}};
                const int set = n_sets++;
                const int64_t from = clk::wall();
                for (int q = 0; q < PARTS[s]; ++q)
                {
                    part(s, k, s == 0 ? perm[o.u(3) % 6][q] : s == 1 ? galp[o.u(3) % 6][q] : q + 1, issues - 1, 0, r, set);
                    if (q + 1 < PARTS[s]) clk::mono_ns += 1000 + (int64_t)r.below(1000000);
                }
                if (streaming)
                    with(s, [&](auto& sky) {
                        sky.sets.push_back({sky.sats[k].id, k, issues - 1, from, clk::wall(), set, !stopped, true});
                    });
            }
            else if (o.name == "obs")
            {
                observations((int)std::min<uint64_t>(60, o.u(1)), o.i(2), o.i(3));
            }
            else if (o.name == "other")
            {
                Rng r(o.u(4));
                sat(o.i(2), o.i(3), s, k, issues);
                if (!issues) return;
                const int how = (int)(o.u(1) % 5);
                if (how == 0)
                {
                    // a subframe of a constellation that is not collected, under a number that is
                    static const uint8_t ids[4] = {1, 3, 4, 5};
                    with(s, [&](auto& sky) {
                        send(0x13, sfrbx(ids[r.below(4)], sky.sats[k].id, sky.sats[k].issues.back().frame(FIRST[s] + (int)r.below(PARTS[s]), r), r), 0, r);
                    });
                    run.probe("other-constellations");
                }
                else if (how == 1)
                    with(s, [&](auto& sky) {
                        // parts that carry no ephemeris
                        const int type = s == 0 ? 4 + (int)r.below(2) : s == 1 ? 6 + (int)r.below(58) : 6 + (int)r.below(10);
                        send(0x13, sfrbx(GNSS[s], sky.sats[k].id, sky.sats[k].issues.back().frame(type, r), r), o.i(5), r);
                    });
                else if (how == 2)
                {
                    // damaged before it reached the receiver
                    if (s == 0) return;
                    with(s, [&](auto& sky) {
                        Bytes t = words(sky.sats[k].issues.back().frame(FIRST[s] + (int)r.below(PARTS[s]), r));
                        const int range = s == 1 ? 114 : 85;
                        const int x = (int)r.below(range);
                        int y = (int)r.below(range);
                        if (y == x) y = (y + 1) % range;
                        t[x / 8] ^= (uint8_t)(0x80 >> (x & 7));
                        t[y / 8] ^= (uint8_t)(0x80 >> (y & 7));
                        run.fault("radio-damage");
                        send(0x13, sfrbx(GNSS[s], sky.sats[k].id, words(t), r), 0, r);
                    });
                }
                else
                {
                    // messages nobody asked for
                    Bytes b(r.below(how == 3 ? 100 : 400));
                    for (auto& x : b) x = (uint8_t)r.below(256);
                    static const uint8_t cls[4] = {0x01, 0x0A, 0x05, 0x02};
                    const uint8_t c = cls[r.below(4)];
                    send(c == 0x02 ? (uint8_t)0x59 : c == 0x0A ? (uint8_t)0x09 : (uint8_t)r.below(2), b, o.i(5), r, c);
                }
            }
            else if (o.name == "noise")
            {
                Rng r(o.u(2));
                noise(1 + o.u(1) % 200, r);
            }
            else if (o.name == "jump")
            {
                clk::wall_offset_ns += o.i(1);
                run.fault("clock-jump");
            }
            else if (o.name == "stop")
            {
                stopped = true;
                raise(SIGINT);
            }
        }
        // everything that is due
        void pump()
        {
            const int64_t target = clk::mono_ns;
            if (++advances > 400000) run.fail("no-progress", "the program does not end");
            // the program waits for its end: everything is set up
            if (!streaming && target - last > 900000)
            {
                struct sigaction sa;
                sigaction(SIGINT, nullptr, &sa);
                if (sa.sa_handler != SIG_DFL)
                {
                    streaming = true;
                    clk::cost_ns = 0;
                    due = last;
                    schedule();
                }
            }
            last = target;
            if (reply_at >= 0 && target >= reply_at && comm)
            {
                reply_at = -1;
                Bytes v(40 + 30 * 4);
                memcpy(&v[0], "EXT CORE 1.00", 13);
                memcpy(&v[40 + 30], "PROTVER=27.10", 13);
                memcpy(&v[40 + 60], "MOD=ZED-F9P", 11);
                Bytes f;
                ubxw::append(f, 0x0A, 0x04, v);
                deliver(f);
            }
            if (!streaming) return;
            while (next < p.ops.size() && due <= target)
            {
                const Op& o = p.ops[next++];
                clk::mono_ns = due;
                if (o.name == "issue") issue(o);
                else op(o);
                due = clk::mono_ns;
                schedule();
            }
            clk::mono_ns = std::max(target, clk::mono_ns);
        }
        void schedule()
        {
            if (next < p.ops.size() && p.ops[next].name != "issue") due += std::max<int64_t>(1, p.ops[next].i(0));
        }
        void issue(const Op& o)
        {
            const int s = (int)(o.u(0) % 3);
            with(s, [&](auto& sky) {
                if (sky.sats.empty()) return;
                auto& sat = sky.sats[o.u(1) % sky.sats.size()];
                Rng r(o.u(2));
                using Sys = typename std::decay<decltype(sat.issues[0])>::type;
                const int mod = s == 0 ? 256 : s == 1 ? 1024 : 65535;
                int code = (int)((p.get(std::string("code") + char('0' + s)) + (int64_t)sat.issues.size()) % mod);
                for (size_t q = 0; q < sat.issues.size(); ++q)
                    if (sat.issues[q].code() == code + (s == 2 ? 1 : 0)) { code = (code + 1) % mod; q = (size_t)-1; }
                sat.issues.push_back(makeIssue<Sys>(r, sat.id, trueGps() + o.i(3), code + (s == 2 ? 1 : 0)));
            });
        }
    };
    static World* g;

    // ------------------------------------------------------------------ checks
    template <typename Sys>
    static std::string compare(const Sys& e, const typename Sys::Eph& got, const Sky<Sys>& sky, const std::vector<Sys>& latest, const uint16_t* tails)
    {
        if constexpr (std::is_same<Sys, Gal>::value)
        {
            bool tail = false;
            return e.compare(got, latest[0], latest[5], tails, tail);  // (the known finding about tails belongs to C13)
        }
        else if constexpr (std::is_same<Sys, Glo>::value) return e.compare(got, latest[1]);
        else return e.compare(got);
    }

    template <typename Sys>
    static void check(Sky<Sys>& sky, int s, mc::logging::LogReader& reader, int key, Run& run)
    {
        struct Got { mc::UTCTime t; typename Sys::Eph e; };
        std::vector<Got> got;
        reader.setCallback(key, [&](const mc::UTCTime& t, int, mc::logging::StreamReader& rd) {
            Got x;
            if (!rd.get(x.e)) run.fail("unreadable", "%s: a logged ephemeris cannot be read", SYS[s]);
            x.t = t;
            if (got.size() > 100000) run.fail("no-progress", "too many records");
            got.push_back(x);
        });
        reader.read();
        // the log as a sequence of completions
        struct State { long latest[6]; std::vector<Sys> copy; uint16_t tails[6] = {}; long mark = -1; };
        std::map<int, State> st;
        for (auto& sat : sky.sats)
        {
            State& q = st[sat.id];
            for (auto& l : q.latest) l = -1;
            q.copy.resize(6, Sys());
        }
        std::map<int, bool> logged_set;
        size_t next = 0;
        for (auto& ev : sky.events)
        {
            State& q = st[ev.sat];
            auto& sat = sky.sats[ev.slot];
            if (s == 2 && q.mark != sat.issues[ev.issue].code())
            {
                for (auto& l : q.latest) l = -1;
                q.mark = sat.issues[ev.issue].code();
            }
            q.latest[ev.part] = (long)ev.issue;
            q.copy[ev.part] = sat.issues[ev.issue];
            q.tails[ev.part] = ev.tail;
            if (next >= got.size()) continue;
            const Got& x = got[next];
            const int64_t wall = x.t.sec * NS + x.t.nsec;
            if (wall != ev.wall || x.e.sat != ev.sat) continue;
            ++next;
            const int a = 1, z = s == 0 ? 3 : s == 1 ? 4 : 5;
            for (int k = FIRST[s]; k < FIRST[s] + PARTS[s]; ++k)
                if (q.latest[k] < 0) run.fail("incomplete", "%s %d: an ephemeris is logged although part %d was not received since the last one", SYS[s], ev.sat, k);
            for (int k = a; k <= z; ++k)
                if (q.latest[k] != q.latest[a]) run.fail("mixed", "%s %d: an ephemeris mixed from issues %ld and %ld is logged", SYS[s], ev.sat, q.latest[a], q.latest[k]);
            const Sys& e = sat.issues[q.latest[a]];
            const std::string d = compare<Sys>(e, x.e, sky, q.copy, q.tails);
            if (!d.empty()) run.fail("content", "%s %d: %s", SYS[s], ev.sat, d.c_str());
            const double age = (double)(wall - (x.e.toe.sec * NS + x.e.toe.nsec)) * 1e-9;
            if (std::fabs(age) > 7200.001) run.fail("implausible", "%s %d: an ephemeris %.0f s off the clock is logged", SYS[s], ev.sat, age);
            if (ev.set >= 0 && q.latest[a] == (long)ev.issue) logged_set[ev.set] = true;
            run.probe("ephemerides-logged");
            run.state(mix(s, mix(ev.part, (uint64_t)(age / 600) & 63)));
            if (s != 2)
                for (auto& l : q.latest) l = -1;
            run.ev("logged %d %d %ld", s, ev.sat, q.latest[a]);
        }
        if (next < got.size())
        {
            const Got& x = got[next];
            run.fail("unexplained", "%s: record %zu of %zu (satellite %d, logged at %lld.%09lld) corresponds to nothing that was received then", SYS[s], next, got.size(), x.e.sat, (long long)x.t.sec, (long long)x.t.nsec);
        }
        for (auto& c : sky.sets)
        {
            if (!c.whole) continue;
            const double toe = (double)toeOf(sky.sats[c.slot].issues[c.issue]);
            const double a = std::fabs((double)c.from * 1e-9 - toe), b = std::fabs((double)c.to * 1e-9 - toe);
            if (std::max(a, b) > 7190) { run.probe("implausible-sets"); continue; }
            run.probe("complete-sets");
            if (!logged_set[c.parts])
                run.fail("lost", "%s %d: issue %zu was received completely at %.3f, but is not logged", SYS[s], c.sat, c.issue, (double)c.to * 1e-9);
        }
        if (got.size() > 1) run.nontrivial();
    }

    void execute(const Plan& p, Run& run) override
    {
        World w(p, run);
        g = &w;
        w.init();
        // (GPS time as the code's constants have it; only the difference matters)
        clk::start((p.get("at") + mc::UTCTime::GPS_UTC_OFFSET) * NS + p.get("ns") + p.get("skew"));
        w.mono0 = clk::mono_ns;
        const std::string dir = run.scratch + "/gathered/logs";
        if (p.get("made")) fs::create_directories(dir);
        disk::reset();
        disk::root = run.scratch;
        disk::Rule rule;
        rule.suffix = ".log";
        rule.short_every = p.get("short");
        rule.eintr_every = p.get("eintr");
        disk::rules.push_back(rule);
        disk::enabled = true;

        // memory the program finds
        {
            const size_t n = 1 << 16;
            std::vector<void*> blocks;
            for (int k = 0; k < 8; ++k) blocks.push_back(malloc(n >> k));
            for (int k = 0; k < 8; ++k) memset(blocks[k], (int)p.get("fill"), n >> k);
            for (auto* b : blocks) free(b);
        }

        async_comm::Comm::on_init = [&](async_comm::Comm& c) {
            w.comm = &c;
            clk::cost_ns = 50000;
            c.on_send = [&](const uint8_t* b, size_t n) {
                w.sent.insert(w.sent.end(), b, b + n);
                // B5 62 0A 04: which version are you?
                const size_t z = w.sent.size();
                if (!w.asked)
                    for (size_t k = 0; k + 8 <= z; ++k)
                        if (w.sent[k] == 0xB5 && w.sent[k + 1] == 0x62 && w.sent[k + 2] == 0x0A && w.sent[k + 3] == 0x04)
                        {
                            w.asked = true;
                            if (p.get("reply") >= 0) w.reply_at = clk::mono_ns + p.get("reply") * 1000000;
                            else run.fault("no-version");
                            if (p.get("early"))
                            {
                                // traffic that was on before anybody listened, cut at the front
                                Rng r((uint64_t)p.get("early"));
                                Bytes b(r.below(60)), f;
                                for (auto& x : b) x = (uint8_t)(r.below(0xB0));
                                const Gps e = Gps::make(r, (int)p.get("first0", 1), w.trueGps(), (int)r.below(256));
                                for (int q = 1; q <= 3; ++q)
                                    if (r.chance(0.7)) ubxw::append(b, 0x02, 0x13, World::sfrbx(0, e.sat, e.frame(q, r), r));
                                w.deliver(b);
                                run.fault("early-traffic");
                            }
                            break;
                        }
            };
        };
        async_comm::Comm::on_close = [&](async_comm::Comm&) {
            w.closed = true;
            w.comm = nullptr;
        };
        w.last = clk::mono_ns;
        clk::on_advance = [] { g->pump(); };

        std::string port = "/dev/receiver";
        std::vector<std::string> args = {"gather_ephemeris", "--port", port, "--baudrate", "115200", "--output_directory", dir};
        std::vector<char*> argv;
        for (auto& a : args) argv.push_back(&a[0]);
        const int rc = gather_main((int)argv.size(), argv.data());
        signal(SIGINT, SIG_DFL);
        clk::on_advance = nullptr;
        if (rc != 0) run.fail("status", "the program ends with status %d", rc);
        if (!w.stopped) run.fail("ended", "the program ended before it was told to");
        if (!w.closed) run.fail("port", "the port is left open");
        run.simTime((double)(clk::mono_ns - w.mono0) * 1e-9);
        run.fault("short-write", disk::st.w_short);
        run.fault("interrupted-write", disk::st.w_eintr);
        disk::enabled = false;

        // the log
        std::string log;
        int logs = 0;
        for (auto& e : fs::directory_iterator(dir)) { log = e.path().string(); ++logs; }
        if (logs != 1) run.fail("log", "%d logs were written", logs);
        using mc::logging::LogReader;
        { LogReader r(log); check(w.gps, 0, r, mc::logging::GPS_EPH, run); }
        { LogReader r(log); check(w.gal, 1, r, mc::logging::GAL_EPH, run); }
        { LogReader r(log); check(w.glo, 2, r, mc::logging::GLO_EPH, run); }
        LogReader r(log);
        size_t next = 0;
        r.setCallback(mc::logging::GNSS_OBS, [&](const mc::UTCTime& t, int, mc::logging::StreamReader& rd) {
            mc::meas::GnssObservation o;
            if (!rd.get(o)) run.fail("obs-unreadable", "a logged observation cannot be read");
            if (next >= w.obs.size()) run.fail("obs-extra", "more observations are logged than were received (%zu)", next);
            const Obs& want = w.obs[next];
            if (t.sec * NS + t.nsec != want.wall) run.fail("obs-order", "observation %zu is logged at %lld.%09lld, received at %.9f", next, (long long)t.sec, (long long)t.nsec, (double)want.wall * 1e-9);
            if (o.gnss_id != want.gnss || o.sat_num != want.sat) run.fail("obs-satellite", "observation %zu is of satellite %d of %d, received was %d of %d", next, o.sat_num, o.gnss_id, want.sat, want.gnss);
            auto num = [&](const char* what, double a, double b, double tol) {
                if (!(std::fabs(a - b) <= tol)) run.fail("obs-value", "observation %zu (satellite %d of %d): %s is %.17g, received %.17g", next, want.sat, want.gnss, what, a, b);
            };
            num("frequency", o.freq, want.freq, 1e-3);
            num("pseudorange", o.pseudorange, want.pr, 0);
            num("phase", o.carrier_phase, want.cp, 0);
            num("doppler", o.doppler, want.dop, 1e-9 * (1 + std::fabs(want.dop)));
            num("time", (double)(o.t.sec - want.t_s) + (double)o.t.nsec * 1e-9, want.t, 1e-6);
            ++next;
            run.probe("observations-logged");
        });
        r.read();
        for (size_t k = next; k < w.obs.size(); ++k)
            if (w.obs[k].before_stop) run.fail("obs-lost", "observation %zu of %zu is not logged", k, w.obs.size());
        run.ev("end %zu", next);
        g = nullptr;
    }
};
Gather::World* Gather::g = nullptr;
DST_SCENARIO("C24", Gather)

}  // namespace
