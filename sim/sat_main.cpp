// Satellites, the satellite manager and the satellite cache (C18-C20) under ephemerides that arrive
// late, early, twice, out of order or never, evictions, clock jumps and receiver jumps.
#include <deque>
#include <memory>

#include "common/satellite/satellite.h"
#include "common/satellite/satellite_cache.h"
#include "core/sat_manager.h"
#include "sky.h"

using namespace dst;
using namespace sky;
using mc::GnssID;
using mc::Out;
using mc::satellite::Satellite;
using mc::satellite::SatelliteBase;
using mc::satellite::SatelliteCache;
using mc::satellite::SatelliteState;

namespace sky {
jmp_buf exit_jmp;
void onExitJump(int) { longjmp(exit_jmp, 1); }
}  // namespace sky

namespace {

constexpr int64_t NS = 1000000000ll;

template <typename E> constexpr int gnssOf() { return std::is_same<E, GpsEph>::value ? GnssID::GPS : std::is_same<E, GalEph>::value ? GnssID::Galileo : GnssID::Glonass; }
template <typename E> constexpr bool isGlo() { return std::is_same<E, GloEph>::value; }

template <typename E>
E make(int sat, uint64_t seed, int64_t toe)
{
    E e(sat);
    makeEph(e, seed, toe);
    if constexpr (isGlo<E>()) e.slot = sat % 14 - 7;
    return e;
}

// What one satellite must know: the latest content per reference time
template <typename E>
struct Model
{
    std::map<int64_t, E> by_toe;  // gps seconds
    void add(const E& e, int64_t toe) { by_toe.erase(toe); by_toe.emplace(toe, e); }
    // the closest, and the other one if two are equally close
    std::vector<const E*> closest(const UTCTime& t, double* dist) const
    {
        std::vector<const E*> out;
        double best = 1e300;
        for (auto& kv : by_toe) best = std::min(best, std::fabs(diff(t, kv.second.toe)));
        for (auto& kv : by_toe)
            if (std::fabs(diff(t, kv.second.toe)) == best) out.push_back(&kv.second);
        *dist = best;
        return out;
    }
};

bool near(const SatelliteState& s, const Orbit& o, double* worst)
{
    double dp = 0, dv = 0;
    for (int k = 0; k < 3; ++k)
    {
        dp = std::max(dp, std::fabs(s.pos(k) - o.p[k]));
        dv = std::max(dv, std::fabs(s.vel(k) - o.v[k]));
        if (!(std::fabs(s.pos(k) - o.p[k]) < 1e12) || !(std::fabs(s.vel(k) - o.v[k]) < 1e12)) dp = 1e12;
    }
    const double dc = std::fabs(s.clk(0) - o.clk) * 299792458.0;
    *worst = std::max(dp, dc);
    return dp < 0.5 && dv < 0.5 && dc < 0.01 && std::fabs(s.clk(1) - o.drift) < 1e-13;
}

// Asks a satellite for its state and checks the answer against the model.
template <typename E>
void ask(const SatelliteBase& sat, const Model<E>& m, const UTCTime& t, int64_t epoch, Run& run, const char* who, SatelliteState* out = nullptr)
{
    double dist;
    auto best = m.closest(t, &dist);
    SatelliteState s;
    const bool ok = survives([&] { sat.getState(t, Out<SatelliteState>(s)); });
    run.ops();
    run.ev("ask %s %lld %d", who, (long long)ns(t, epoch), ok);
    if (!isGlo<E>() && dist > 7200)
    {
        run.probe("stale-refused");
        if (ok) run.fail("stale-ephemeris-used", "%s: a position was computed %.0f s away from the closest ephemeris", who, dist);
        return;
    }
    if (!ok) run.fail("no-state", "%s: no state although the closest ephemeris is %.3f s away", who, dist);
    run.evbytes(s.pos.data(), 24);
    run.evbytes(s.clk.data(), 16);
    bool good = false;
    double worst = 0, w0 = 0;
    for (auto* e : best)
    {
        double w;
        if (near(s, orbit(*e, t), &w)) good = true;
        if (worst == 0) worst = w;
        (void)w0;
    }
    if (best.size() > 1) run.probe("two-equally-close");
    if (!good)
    {
        // whose is it?
        const char* whose = "of no ephemeris received";
        for (auto& kv : m.by_toe)
        {
            double w;
            if ((isGlo<E>() || std::fabs(diff(t, kv.second.toe)) < 1e6) && near(s, orbit(kv.second, t), &w)) whose = "of another ephemeris than the closest";
        }
        run.fail("wrong-state", "%s: the state is %s (off by %.3f m, closest ephemeris %.3f s away, %zu held)", who, whose, worst, dist, m.by_toe.size());
    }
    if (!(s.t == t)) run.fail("wrong-time", "%s: the state is labelled with another time than the one asked for", who);
    if (out) *out = s;
}

// ------------------------------------------------------------------ C18
template <typename E>
struct AlmanacBase
{
    static void execute(const Plan& plan, Run& run)
    {
        const int64_t gps0 = plan.get("gps0"), epoch = gps0 + UTCTime::GPS_UTC_OFFSET;
        const int id = (int)plan.get("sat", 1);
        Satellite<E> a(gnssOf<E>(), id), b(gnssOf<E>(), id);
        Model<E> m;
        std::vector<std::pair<int64_t, uint64_t>> hist;  // arrival history
        size_t b_done = 0;
        int disorder = 0;
        int64_t last = INT64_MIN;
        for (auto& o : plan.ops)
        {
            if (o.name == "eph")
            {
                const int64_t toe = gps0 + o.i(0);
                E e = make<E>(id, o.u(1), toe);
                if (m.by_toe.count(toe)) run.fault("duplicate-or-update");
                if (o.i(0) < last) { run.fault("out-of-order"); ++disorder; }
                last = o.i(0);
                a.addEph(e);
                m.add(e, toe);
                hist.push_back({toe, o.u(1)});
                run.ev("eph %lld %llu", (long long)toe, (unsigned long long)o.u(1));
                if (a.almanacSize() != (int)m.by_toe.size())
                    run.fail("almanac-size", "%d ephemerides held, %zu reference times received", a.almanacSize(), m.by_toe.size());
                run.ops();
                run.state(mix(m.by_toe.size(), std::distance(m.by_toe.begin(), m.by_toe.find(toe))));
            }
            else if (o.name == "ask" && !m.by_toe.empty())
            {
                const UTCTime t = at(epoch, o.i(0));
                SatelliteState sa, sb;
                ask<E>(a, m, t, epoch, run, "satellite", &sa);
                const double wl = a.carrierWavelength(0);
                bool known = false;
                for (auto& kv : m.by_toe) known |= std::fabs(wl - kv.second.getWavelength(0)) < 1e-12;
                if (!known) run.fail("wavelength", "carrier wavelength %.9f", wl);
            }
            else if (o.name == "shuffle" && b_done < hist.size())
            {
                // the same ephemerides reach another receiver in another order (issues of one reference time keep theirs)
                Rng r(o.u(0));
                std::vector<std::pair<int64_t, uint64_t>> rest(hist.begin() + b_done, hist.end());
                b_done = hist.size();
                std::vector<size_t> order(rest.size());
                for (size_t k = 0; k < order.size(); ++k) order[k] = k;
                for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[r.below(k)]);
                std::map<int64_t, std::vector<uint64_t>> per;
                for (auto& h : rest) per[h.first].push_back(h.second);
                std::map<int64_t, size_t> used;
                for (size_t k : order)
                {
                    const int64_t toe = rest[k].first;
                    b.addEph(make<E>(id, per[toe][used[toe]++], toe));
                    if (r.chance(0.1)) b.addEph(make<E>(id, per[toe][used[toe] - 1], toe));
                }
                run.fault("shuffled", (int64_t)order.size());
                for (size_t k = 1; k < o.args.size(); ++k)
                {
                    const UTCTime t = at(epoch, o.i(k));
                    SatelliteState sa, sb;
                    double dist;
                    m.closest(t, &dist);
                    if (!isGlo<E>() && dist > 7200) continue;
                    ask<E>(a, m, t, epoch, run, "satellite", &sa);
                    ask<E>(b, m, t, epoch, run, "satellite with shuffled arrivals", &sb);
                    if ((sa.pos - sb.pos).norm() > 1e-6) run.fail("order-dependent", "two arrival orders of the same ephemerides give positions %.3f m apart", (sa.pos - sb.pos).norm());
                    if (disorder) run.nontrivial();
                }
            }
        }
        run.simTime(plan.get("span") * 1.0);
    }
};

struct Almanac : Scenario
{
    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p;
        const int sys = (int)rng.below(3);
        p.set("sys", sys);
        p.set("sat", rng.range(1, 24));
        const bool week_end = rng.chance(0.3);
        const int64_t gps0 = rng.range(2100, 3000) * 604800ll + (week_end ? rng.range(-20000, 20000) : rng.range(0, 604799));
        p.set("gps0", gps0);
        const int64_t step = rng.pick(std::vector<int64_t>{600, 900, 1800, 7200});
        const int n = (int)rng.range(1, thorough ? 120 : 40);
        std::vector<int64_t> seen;
        int64_t now = 0;
        const double disorder = rng.uniform(0, 0.6);
        for (int k = 0; k < n; ++k)
        {
            int64_t toe;
            if (!seen.empty() && rng.chance(0.15)) toe = rng.pick(seen);
            else if (rng.chance(disorder)) toe = now + rng.range(-12, 3) * step;
            else { now += step * (rng.chance(0.1) ? rng.range(2, 5) : 1); toe = now; }
            if (rng.chance(0.1)) toe += rng.range(-60, 60);
            seen.push_back(toe);
            p.add("eph", {toe, (int64_t)(rng.u64() >> 8)});
            while (rng.chance(0.5))
            {
                int64_t t = rng.pick(seen) * NS;
                const int how = (int)rng.below(7);
                if (how == 6) t += rng.range(-60, 60) * 60 * NS + rng.range(-5000000, 5000000);  // near whole minutes
                else if (how == 0) t += 0;                                                   // exactly at a reference time
                else if (how == 1) t = (rng.pick(seen) + rng.pick(seen)) * NS / 2;         // exactly between two
                else if (how == 2) t = (rng.pick(seen) + rng.pick(seen)) * NS / 2 + rng.range(-5, 5);
                else if (how == 3) t += rng.range(-7300, 7300) * NS;
                else t += rng.range(-3600ll * NS, 3600ll * NS);
                p.add("ask", {t});
            }
            if (rng.chance(0.08) || k == n - 1)
            {
                Op& o = p.add("shuffle", {(int64_t)(rng.u64() >> 8)});
                for (int j = 0; j < 4; ++j)
                {
                    const int64_t x = rng.pick(seen), y = rng.pick(seen);
                    o.args.push_back(tok(rng.chance(0.4) ? (x + y) * NS / 2 : x * NS + rng.range(-3600ll * NS, 3600ll * NS)));
                }
            }
        }
        p.set("span", now);
        return p;
    }
    void execute(const Plan& plan, Run& run) override
    {
        switch (plan.get("sys"))
        {
        case 0: AlmanacBase<GpsEph>::execute(plan, run); break;
        case 1: AlmanacBase<GalEph>::execute(plan, run); break;
        default: AlmanacBase<GloEph>::execute(plan, run);
        }
    }
};
DST_SCENARIO("C18", Almanac)

// ------------------------------------------------------------------ C19
struct Manager : Scenario
{
    static constexpr int CAP = 29;
    static constexpr int IDS[3] = {GnssID::GPS, GnssID::Galileo, GnssID::Glonass};

    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p;
        p.set("gps0", rng.range(2100, 3000) * 604800ll + rng.range(0, 604799));
        const int n = (int)rng.range(5, thorough ? 900 : 300);
        // how many satellites are in play per constellation
        int pop[3];
        for (int& x : pop) x = (int)(rng.chance(0.3) ? rng.range(1, 12) : rng.range(25, rng.chance(0.2) ? 250 : 40));
        const int main_c = (int)rng.below(3);
        const double p_main = rng.chance(0.6) ? rng.uniform(0.5, 1) : 0;
        for (int k = 0; k < n; ++k)
        {
            const int c = rng.chance(p_main) ? main_c : (int)rng.below(3);
            const int sat = (int)rng.range(0, pop[c]);
            if (rng.chance(0.7)) p.add("eph", {c, sat, rng.range(0, 4) * 1800, (int64_t)(rng.u64() >> 8)});
            else if (rng.chance(0.8)) p.add("get", {IDS[c], sat, rng.range(-1000 * NS, 7000 * NS)});
            else p.add("get", {rng.range(-1, 8), rng.range(-2, 300), 0});
        }
        p.add("all");
        return p;
    }

    template <typename E>
    struct Sats
    {
        std::deque<int> order;
        std::map<int, Model<E>> m;
        std::map<int, const SatelliteBase*> ptr;
    };
    std::tuple<Sats<GpsEph>, Sats<GalEph>, Sats<GloEph>> model;
    std::unique_ptr<mc::SatelliteManager> man;
    int64_t gps0 = 0;
    int evictions = 0;

    template <typename E>
    void eph(Sats<E>& s, int sat, int64_t toe, uint64_t seed, Run& run)
    {
        E e = make<E>(sat, seed, gps0 + toe);
        if (!s.m.count(sat))
        {
            if (s.order.size() == (size_t)CAP)
            {
                s.m.erase(s.order.front());
                s.ptr.erase(s.order.front());
                s.order.pop_front();
                run.fault("eviction");
                ++evictions;
            }
            s.order.push_back(sat);
        }
        s.m[sat].add(e, gps0 + toe);
        man->ephCb(e);
        run.ev("eph %d %d %lld", gnssOf<E>(), sat, (long long)toe);
        run.state(mix(s.order.size(), gnssOf<E>()));
    }
    template <typename E>
    void get(Sats<E>& s, int sat, int64_t t, Run& run)
    {
        const SatelliteBase* p = (const SatelliteBase*)0x1;
        const mc::Error err = man->getSat(gnssOf<E>(), sat, Out<const SatelliteBase*>(p));
        run.ops();
        run.ev("get %d %d %d", gnssOf<E>(), sat, err.ok());
        const bool known = s.m.count(sat);
        if (err.ok() != known)
            run.fail(known ? "satellite-lost" : "unknown-satellite-found", "satellite %d of constellation %d is %s by the %zu heard last, lookup %s", sat, gnssOf<E>(),
                     known ? "among" : "not among", s.order.size(), err.ok() ? "succeeds" : "fails");
        if (!known) return;
        if (!p) run.fail("null-satellite", "lookup succeeded without a satellite");
        if (p->gnssId() != gnssOf<E>() || p->sat_num() != sat) run.fail("wrong-satellite", "asked for %d of %d, got %d of %d", sat, gnssOf<E>(), p->sat_num(), p->gnssId());
        auto& m = s.m.at(sat);
        if (p->almanacSize() != (int)m.by_toe.size()) run.fail("wrong-almanac", "satellite %d of %d holds %d ephemerides, %zu received", sat, gnssOf<E>(), p->almanacSize(), m.by_toe.size());
        auto it = s.ptr.find(sat);
        if (it != s.ptr.end() && it->second != p) run.fail("satellite-moved", "satellite %d of %d is another object than before", sat, gnssOf<E>());
        s.ptr[sat] = p;
        ask<E>(*p, m, at(gps0 + UTCTime::GPS_UTC_OFFSET, t), gps0, run, "managed satellite");
        if (evictions) run.nontrivial();
    }
    void execute(const Plan& plan, Run& run) override
    {
        gps0 = plan.get("gps0");
        man.reset(new mc::SatelliteManager);
        for (auto& o : plan.ops)
        {
            if (o.name == "eph")
            {
                if (o.i(0) == 0) eph(std::get<0>(model), (int)o.i(1), o.i(2), o.u(3), run);
                else if (o.i(0) == 1) eph(std::get<1>(model), (int)o.i(1), o.i(2), o.u(3), run);
                else eph(std::get<2>(model), (int)o.i(1), o.i(2), o.u(3), run);
            }
            else if (o.name == "get")
            {
                const int g = (int)o.i(0), sat = (int)o.i(1);
                if (g == GnssID::GPS) get(std::get<0>(model), sat, o.i(2), run);
                else if (g == GnssID::Galileo) get(std::get<1>(model), sat, o.i(2), run);
                else if (g == GnssID::Glonass) get(std::get<2>(model), sat, o.i(2), run);
                else
                {
                    const SatelliteBase* p = nullptr;
                    run.probe("unsupported-constellation");
                    if (man->getSat(g, sat, Out<const SatelliteBase*>(p)).ok()) run.fail("unsupported-constellation", "lookup in constellation %d succeeds", g);
                }
            }
            else if (o.name == "all")
            {
                for (int sat = 0; sat < 60; ++sat) { get(std::get<0>(model), sat, 900 * NS, run); get(std::get<1>(model), sat, 900 * NS, run); get(std::get<2>(model), sat, 900 * NS, run); }
            }
        }
        // the end of the manager must release everything properly
        man.reset();
    }
};
constexpr int Manager::IDS[3];
DST_SCENARIO("C19", Manager)

// ------------------------------------------------------------------ C20
template <typename E>
struct CacheBase
{
    static void execute(const Plan& plan, Run& run)
    {
        const int64_t gps0 = plan.get("gps0"), epoch = gps0 + UTCTime::GPS_UTC_OFFSET;
        const int id = 3;
        Satellite<E> sat(gnssOf<E>(), id);
        Model<E> m;
        SatelliteCache cache;
        int updates = 0;
        int64_t last = 0;
        for (auto& o : plan.ops)
        {
            if (o.name == "eph")
            {
                E e = make<E>(id, o.u(1), gps0 + o.i(0));
                sat.addEph(e);
                m.add(e, gps0 + o.i(0));
                run.ev("eph %lld", (long long)o.i(0));
            }
            else if (o.name == "update" && !m.by_toe.empty())
            {
                const UTCTime t = at(epoch, o.i(0));
                double dist;
                m.closest(t, &dist);
                if (dist > 7100) continue;
                const Vec3 rec(o.d(1), o.d(2), o.d(3));
                if (updates && o.i(0) < last) run.fault("time-goes-back");
                last = o.i(0);
                cache.update(t, rec, sat);
                SatelliteCache fresh;
                fresh.update(t, rec, sat);
                run.ops();
                ++updates;
                const SatelliteState &s = cache.state, &f = fresh.state;
                run.ev("update %lld", (long long)o.i(0));
                run.evbytes(s.pos.data(), 24);
                if (!((s.pos - f.pos).norm() < 0.01 && (s.vel - f.vel).norm() < 1e-4 && (s.clk - f.clk).norm() < 1e-14))
                    run.fail("history-dependent", "update %d: position off by %.3f m, velocity by %.6f m/s against a new cache", updates, (s.pos - f.pos).norm(), (s.vel - f.vel).norm());
                if (!(std::fabs(diff(s.t, f.t)) < 5e-9)) run.fail("history-dependent-time", "transmission time off by %.9f s", diff(s.t, f.t));
                if (!(std::fabs(cache.sagnac - fresh.sagnac) < 1e-5)) run.fail("history-dependent-sagnac", "Sagnac term off by %.6f m", cache.sagnac - fresh.sagnac);
                auto same = [](double a, double b) { return std::fabs(a - b) < 1e-6 || (std::isnan(a) && std::isnan(b)); };
                if (!same(cache.atm.ionospheric_delay_m, fresh.atm.ionospheric_delay_m) || !same(cache.atm.tropospheric_delay_m, fresh.atm.tropospheric_delay_m))
                    run.fail("history-dependent-atmosphere", "delays %.6f %.6f against %.6f %.6f of a new cache", cache.atm.ionospheric_delay_m, cache.atm.tropospheric_delay_m, fresh.atm.ionospheric_delay_m, fresh.atm.tropospheric_delay_m);
                // the state is that of the closest ephemeris at the time of transmission
                auto best = m.closest(s.t, &dist);
                auto best_t = m.closest(t, &dist);
                double d2;
                const bool switching = best != best_t || m.closest(at(epoch, o.i(0) - 300000000), &d2) != best_t;
                best.insert(best.end(), best_t.begin(), best_t.end());
                bool good = false;
                double w = 0;
                for (auto* e : best) good |= near(s, orbit(*e, s.t), &w);
                if (!good)
                {
                    // the satellite switched ephemeris between transmission and reception?
                    if (switching) run.probe("switch-in-flight");
                    else run.fail("wrong-state", "the satellite's state is %.3f m from its ephemeris at the time of transmission", w);
                }
                // light time: range plus Sagnac term
                const double sag = 7.2921151467e-5 * (s.pos.x() * rec.y() - s.pos.y() * rec.x()) / 299792458.0;
                const double tau = ((s.pos - rec).norm() + sag) / 299792458.0;
                if (switching) continue;
                if (!(std::fabs(tau - diff(t, s.t)) < 1e-8)) run.fail("light-time", "signal travels %.9f s, transmission is %.9f s before reception", tau, diff(t, s.t));
                if (!(std::fabs(cache.sagnac - sag) < 1e-3)) run.fail("sagnac", "Sagnac term %.6f m instead of %.6f m", cache.sagnac, sag);
                if (updates > 2) run.nontrivial();
                run.state(mix(mix(m.by_toe.size(), (uint64_t)(dist / 300)), isGlo<E>()));
            }
        }
        run.simTime(plan.get("span") * 1.0);
    }
};

struct Cache : Scenario
{
    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p;
        p.set("sys", (int)rng.below(3));
        p.set("gps0", rng.range(2100, 3000) * 604800ll + (rng.chance(0.3) ? rng.range(-20000, 20000) : rng.range(0, 604799)));
        const int n = (int)rng.range(3, thorough ? 120 : 40);
        const double R = 6378137;
        double lat = rng.uniform(-1.5, 1.5), lon = rng.uniform(-3.1, 3.1), h = rng.uniform(-200, 12000);
        int64_t now = rng.range(-900, 900) * NS, toe = 0;
        p.add("eph", {0, (int64_t)(rng.u64() >> 8)});
        for (int k = 0; k < n; ++k)
        {
            if (rng.chance(0.2)) { toe += 1800; p.add("eph", {rng.chance(0.2) ? toe - 3600 * rng.range(0, 2) : toe, (int64_t)(rng.u64() >> 8)}); }
            const int how = (int)rng.below(10);
            if (how < 6) now += (int64_t)(rng.chance(0.5) ? 100000000 : rng.uniform(0, 3e9));
            else if (how < 8) now += rng.range(0, 900ll * NS);
            else if (how == 8 && rng.chance(0.3)) now = (toe - 900) * NS + rng.range(-20000000, 150000000);  // ephemerides change while the signal travels
            else if (how == 8) now -= rng.range(0, 600ll * NS);
            else now = (toe - rng.range(0, 3600)) * NS;
            if (now > (toe + 5000) * NS) now = toe * NS;
            if (rng.chance(0.1)) { lat = rng.uniform(-1.5, 1.5); lon = rng.uniform(-3.1, 3.1); h = rng.uniform(-200, 12000); }  // the receiver jumps
            else { lat += rng.uniform(-1e-5, 1e-5); lon += rng.uniform(-1e-5, 1e-5); }
            Op& o = p.add("update", {now});
            o.args.push_back(tokd((R + h) * cos(lat) * cos(lon)));
            o.args.push_back(tokd((R + h) * cos(lat) * sin(lon)));
            o.args.push_back(tokd((R * (1 - 0.00669437999) + h) * sin(lat)));
        }
        p.set("span", toe + 1800);
        return p;
    }
    void execute(const Plan& plan, Run& run) override
    {
        switch (plan.get("sys"))
        {
        case 0: CacheBase<GpsEph>::execute(plan, run); break;
        case 1: CacheBase<GalEph>::execute(plan, run); break;
        default: CacheBase<GloEph>::execute(plan, run);
        }
    }
};
DST_SCENARIO("C20", Cache)

}  // namespace
