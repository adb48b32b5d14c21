// Assembly of broadcast ephemerides (C12-C14): the repository's parsers run for real on what a
// simulated sky, receiver and link deliver: losses, duplicates, late words of earlier issues, damaged
// words, changes of issue at any moment, restarts, several satellites at once.
#include <memory>
#include <new>

#include "core.h"
#include "nav.h"

using namespace dst;
using namespace nav;

namespace {

template <typename Sys>
struct Assembly : Scenario
{
    using Eph = typename Sys::Eph;
    static constexpr bool GPS = std::is_same<Sys, Gps>::value, GAL = std::is_same<Sys, Gal>::value, GLO = std::is_same<Sys, Glo>::value;
    static constexpr int FIRST = GAL ? 0 : 1;

    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p;
        const int sats = (int)rng.range(1, 3);
        p.set("sats", sats);
        // a moment within +-3 h of the end of a week in a third of the runs
        int64_t at;
        if (GLO) at = (int64_t)rng.range(23 * 1461, 40 * 1461) / 4 * 86400 + rng.range(0, 86399);
        else
        {
            at = rng.range(2100, 3000) * 604800ll + (rng.chance(0.35) ? rng.range(-10800, 10800) : rng.range(0, 604799));
            if (GAL && rng.chance(0.1)) at = rng.range(1024 + 1, 1024 + 30) * 604800ll + rng.range(0, 604799);
        }
        p.set("at", at);
        p.set("fill", (int64_t)rng.below(256));
        p.set("step", rng.chance(0.5) ? 1 : rng.chance(0.7) ? (int64_t)1 << rng.below(GPS ? 8 : GAL ? 10 : 16) : (int64_t)rng.range(1, 255));
        p.set("code", (int64_t)rng.below(GPS ? 256 : GAL ? 1024 : 65536));
        std::vector<int> issues(sats, 0);
        auto cleanSet = [&](int sat) { p.add("clean", {sat, (int64_t)rng.below(6), (int64_t)(rng.u64() >> 2), rng.chance(0.2)}); };
        for (int s = 0; s < sats; ++s) { p.add("issue", {s, (int64_t)(rng.u64() >> 2), rng.range(0, 4)}); ++issues[s]; }
        const int n = (int)rng.range(1, thorough ? 120 : 40);
        std::vector<int> at_frame(sats, 0);
        const double churn = rng.chance(0.5) ? 0.02 : 0.12, disorder = rng.chance(0.4) ? 0.05 : 0.3, damage = rng.chance(0.4) ? 0.03 : 0.2;
        for (int k = 0; k < n; ++k)
        {
            const int s = (int)rng.below(sats);
            const int64_t seed = (int64_t)(rng.u64() >> 2);
            if (rng.chance(churn)) { p.add("issue", {s, seed, rng.range(0, 4)}); ++issues[s]; if (rng.chance(0.5)) at_frame[s] = 0; }
            if (rng.chance(0.02)) p.add("restart", {s});
            if (rng.chance(0.06)) { cleanSet(s); continue; }
            // the broadcast order
            static const int order[3][6] = {{1, 2, 3, 1, 2, 3}, {2, 4, 0, 1, 3, 5}, {1, 2, 3, 4, 5, 1}};
            int which = order[GPS ? 0 : GAL ? 1 : 2][at_frame[s] % Sys::N];
            if (rng.chance(disorder)) which = FIRST + (int)rng.below(Sys::N);
            else ++at_frame[s];
            if (rng.chance(damage))
            {
                p.add("bad", {s, which, (int64_t)rng.below(8), seed});
                if (rng.chance(0.5)) continue;
            }
            if (issues[s] > 1 && rng.chance(disorder))
                p.add("frame", {s, which, rng.range(0, issues[s] - 2), seed});   // late, from an earlier issue
            else
                p.add("frame", {s, which, issues[s] - 1, seed});
            if (rng.chance(0.1)) p.add("frame", {s, which, issues[s] - 1, seed});  // again
            if (rng.chance(0.1)) p.add("other", {s, (int64_t)rng.below(60), seed});
            if (GLO && rng.chance(0.1)) p.add("tick", {s, rng.range(1, 4)});
        }
        for (int s = 0; s < sats; ++s) cleanSet(s);
        return p;
    }

    struct Sat
    {
        int id;
        std::vector<Sys> issues;
        int latest[6];
        Sys latestCopy[6];
        uint16_t tails[6] = {0};
        bool strict = false;
        std::unique_ptr<uint8_t[]> mem;
        Eph* eph = nullptr;
        int64_t mark = -1;
        int reports = 0;
        bool disturbed = false;
    };

    static void start(Sat& s, int fill)
    {
        if (s.eph) s.eph->~Eph();
        s.mem.reset(new uint8_t[sizeof(Eph) + 64]);
        memset(s.mem.get(), fill, sizeof(Eph) + 64);
        uint8_t* m = s.mem.get();
        m += (64 - (uintptr_t)m % 64) % 64;
        s.eph = new (m) Eph(s.id);
        for (auto& l : s.latest) l = -1;
        s.mark = -1;
    }

    // Deliver bytes; accepted: the word is intact and of this satellite (slot k of issue i)
    bool deliver(Sat& s, const Bytes& b, bool accepted, int k, int i, Run& run, const char* what)
    {
        // exactly as large as announced
        std::unique_ptr<uint8_t[]> c(new uint8_t[b.size() ? b.size() : 1]);
        memcpy(c.get(), b.data(), b.size());
        run.ops();
        if (accepted)
        {
            if (GLO && s.mark != s.issues[i].code())
            {
                for (auto& l : s.latest) l = -1;
                s.mark = s.issues[i].code();
            }
            s.latest[k] = i;
            s.latestCopy[k] = s.issues[i];
            if constexpr (GAL) s.tails[k] = Gal::tailOf(b);
        }
        const bool done = s.eph->parse(c.get(), b.size());
        run.ev("%d %s %d.%d %d", s.id, what, i, k, done);
        if (done)
        {
            ++s.reports;
            check(s, run, what);
            if (!GLO)
                for (auto& l : s.latest) l = -1;
        }
        return done;
    }
    void check(Sat& s, Run& run, const char* what)
    {
        // the slots that carry the number of their issue
        const int a = 1, z = GPS ? 3 : GAL ? 4 : 5;
        for (int k = FIRST; k < FIRST + Sys::N; ++k)
            if (s.latest[k] < 0) run.fail("incomplete", "satellite %d: reported complete after %s, but part %d was not received since the last report, restart or time mark", s.id, what, k);
        for (int k = a; k <= z; ++k)
            if (s.latest[k] != s.latest[a])
                run.fail("mixed", "satellite %d: reported complete from parts of issues %d (part %d) and %d (part %d)", s.id, s.latest[a], a, s.latest[k], k);
        const Sys& e = s.issues[s.latest[a]];
        std::string d;
        if constexpr (GPS) d = e.compare(*s.eph);
        else if constexpr (GAL)
        {
            bool tail = false;
            d = e.compare(*s.eph, s.issues[s.latest[0]], s.issues[s.latest[5]], s.tails, tail);
            // known finding: only reported by the plan that demonstrates it
            if (tail) run.probe("known-tail");
            if (tail && s.strict && d.empty())
                run.fail("galileo-tail", "satellite %d: idot is %.17g, broadcast %.17g: the last sixteen bits of each word are read behind the checksum", s.id, s.eph->idot, std::ldexp(e.idot, -43) * M_PI);
        }
        else d = e.compare(*s.eph, s.latestCopy[1]);
        if (!d.empty()) run.fail("value", "satellite %d issue %d: %s", s.id, s.latest[a], d.c_str());
        if (s.reports > 1 || s.disturbed) run.nontrivial();
        run.probe("reports");
    }

    void execute(const Plan& p, Run& run) override
    {
        const int n = (int)std::max<int64_t>(1, std::min<int64_t>(8, p.get("sats", 1)));
        const int fill = (int)p.get("fill", 0);
        int64_t at = p.get("at");
        std::vector<std::unique_ptr<Sat>> sats;
        const int code0 = (int)p.get("code", 1), step = (int)p.get("step", 1);
        for (int k = 0; k < n; ++k)
        {
            sats.push_back(std::make_unique<Sat>());
            sats.back()->id = 1 + (k * 7 + code0) % (GPS ? 32 : GAL ? 36 : 24);
            start(*sats.back(), fill);
            sats.back()->strict = p.get("strict", 0) != 0;
        }
        auto now = [&](const Op& op) -> Sat& { return *sats[op.u(0) % n]; };
        // which parts, in state terms
        auto note = [&](Sat& s) {
            uint64_t h = 0;
            const int last = (int)s.issues.size() - 1;
            for (int k = 0; k < 6; ++k) h = h * 4 + (s.latest[k] < 0 ? 0 : s.latest[k] == last ? 1 : s.latest[k] == last - 1 ? 2 : 3);
            run.state(h);
        };
        for (auto& op : p.ops)
        {
            Sat& s = now(op);
            if (op.name == "issue")
            {
                Rng r(op.u(1));
                at += op.i(2) * 1800;
                const int mod = GPS ? 256 : GAL ? 1024 : 65535;
                // successive issues carry successive numbers (issue 0 included)
                // or ones that differ in a few bits only
                int code = (code0 + (int)s.issues.size() * step) % mod;
                for (size_t q = 0; q < s.issues.size(); ++q)
                    if (s.issues[q].code() == code + (GLO ? 1 : 0)) { code = (code + 1) % mod; q = (size_t)-1; }
                if (GLO) code += 1;
                s.issues.push_back(Sys::make(r, s.id, at, code));
                run.probe("issues");
                continue;
            }
            if (s.issues.empty()) continue;
            if (op.name == "restart")
            {
                start(s, fill ^ 0xFF);
                s.disturbed = true;
                run.fault("restart");
            }
            else if (op.name == "tick")
            {
                if constexpr (GLO) s.issues.back().tick(op.i(1));
            }
            else if (op.name == "frame")
            {
                const int k = FIRST + (int)((op.u(1) - FIRST) % Sys::N);
                const int i = (int)(op.u(2) % s.issues.size());
                Rng r(op.u(3));
                if (i + 1 < (int)s.issues.size()) { run.fault("late-word"); s.disturbed = true; }
                deliver(s, s.issues[i].frame(k, r), true, k, i, run, "part");
                note(s);
            }
            else if (op.name == "other")
            {
                Rng r(op.u(2));
                Bytes b;
                if constexpr (GPS) b = s.issues.back().frame(4 + (int)(op.u(1) % 2), r);
                else if constexpr (GAL) b = s.issues.back().frame(6 + (int)(op.u(1) % 58), r);
                else
                {
                    b = s.issues.back().frame(6 + (int)(op.u(1) % 10), r);
                }
                const bool done = s.eph->parse(b.data(), b.size());
                run.ops();
                run.ev("other %d", done);
                if (done) { ++s.reports; check(s, run, "a word that carries no ephemeris"); }
            }
            else if (op.name == "bad")
            {
                const int k = FIRST + (int)((op.u(1) - FIRST) % Sys::N);
                const int i = (int)s.issues.size() - 1;
                Rng r(op.u(3));
                const int how = (int)(op.u(2) % 8);
                bool accepted = false;
                Bytes b;
                s.disturbed = true;
                if (how == 0)
                {
                    // cut short
                    b = s.issues[i].frame(k, r);
                    b.resize(r.below(Sys::SIZE));
                    run.fault("truncated");
                }
                else if constexpr (GPS)
                {
                    int pre = 0x8B ^ (1 << r.below(8));
                    b = s.issues[i].frame(k, r, pre);
                    run.fault("bad-preamble");
                }
                else if constexpr (GAL)
                {
                    if (how == 1) { b = s.issues[i].frame(k, r, -1, true); run.fault("alert-page"); }
                    else if (how == 2) { b = s.issues[i].frame(k, r, -1, false, false); run.fault("page-parity"); }
                    else if (how == 3)
                    {
                        // the clock word of another satellite
                        int sv = 1 + (int)r.below(36);
                        if (sv == s.id) sv = sv % 36 + 1;
                        Rng q(r.u64());
                        Gal other = Gal::make(q, sv, p.get("at"), s.issues[i].code());
                        b = other.frame(4, r);
                        run.fault("foreign-word");
                    }
                    else
                    {
                        b = s.issues[i].frame(k, r);
                        Bytes t = words(b);
                        const int bits = 1 + (int)r.below(3);
                        bool hit = false;
                        std::set<int> done;
                        for (int q = 0; q < bits; ++q)
                        {
                            const int x = (int)r.below(256);
                            if (!done.insert(x).second) continue;
                            t[x / 8] ^= (uint8_t)(0x80 >> (x & 7));
                            hit |= Gal::covered(x);
                        }
                        b = words(t);
                        accepted = !hit;
                        run.fault("bit-flip");
                    }
                }
                else
                {
                    b = s.issues[i].frame(k, r);
                    Bytes t = words(b);
                    // one or two bits of the 85
                    const int x = (int)r.below(85);
                    t[x / 8] ^= (uint8_t)(0x80 >> (x & 7));
                    accepted = x > 77;   // one of the check bits (an error in the overall parity is not distinguishable from several)
                    if (how >= 4)
                    {
                        int y = (int)r.below(85);
                        if (y == x) y = (y + 1) % 85;
                        t[y / 8] ^= (uint8_t)(0x80 >> (y & 7));
                        accepted = false;
                    }
                    b = words(t);
                    run.fault("bit-flip");
                }
                deliver(s, b, accepted, k, i, run, accepted ? "part with harmless damage" : "damaged part");
                note(s);
            }
            else if (op.name == "clean")
            {
                Rng r(op.u(2));
                static const int perm[6][3] = {{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}};
                static const int gal[6][6] = {{2, 4, 0, 1, 3, 5}, {2, 4, 1, 3, 5, 0}, {2, 0, 4, 1, 3, 5}, {2, 4, 0, 1, 3, 5}, {2, 4, 1, 3, 0, 5}, {2, 4, 0, 1, 3, 5}};
                const int i = (int)s.issues.size() - 1;
                if (GLO && s.mark == s.issues[i].code()) { /* same time mark: a repeated frame */ }
                bool done = false;
                const int before = s.reports;
                for (int q = 0; q < Sys::N; ++q)
                {
                    const int k = GPS ? perm[op.u(1) % 6][q] : GAL ? gal[op.u(1) % 6][q] : q + 1;
                    done = deliver(s, s.issues[i].frame(k, r), true, k, i, run, "clean part") || done;
                    // repeated words
                    if (op.i(3) && r.chance(0.3)) done = deliver(s, s.issues[i].frame(k, r), true, k, i, run, "clean part again") || done;
                }
                (void)before;
                if (!done) run.fail("stuck", "satellite %d: a complete clean set of issue %d was not reported", s.id, i);
                run.probe("clean-sets");
                note(s);
            }
        }
        run.simTime((double)p.ops.size() * 6);
        for (auto& s : sats) s->eph->~Eph();
    }
    bool keep(const Op& op) const override { return op.name == "issue"; }
};
using GpsA = Assembly<Gps>;
using GalA = Assembly<Gal>;
using GloA = Assembly<Glo>;
DST_SCENARIO("C12", GpsA)
DST_SCENARIO("C13", GalA)
DST_SCENARIO("C14", GloA)

}  // namespace
