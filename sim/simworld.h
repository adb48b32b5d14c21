// A simulated experiment: the recorded ephemerides, the configuration, and what can be observed.
#pragma once

#include <experimental/filesystem>
#include <fstream>
#include <memory>
#include <sstream>

#include "common/logging/log_key.h"
#include "common/logging/log_reader.h"
#include "common/logging/log_writer.h"
#include "common/satellite/atm_correction.h"
#include "sim/sim.h"
#include "sky.h"

using namespace dst;
using namespace sky;
using mc::GnssID;
namespace fs = std::experimental::filesystem;
namespace logging = mc::logging;

namespace {

constexpr int64_t NS = 1000000000ll;
constexpr double C = 299792458.0;

template <typename E>
constexpr int gnssOf()
{
    return std::is_same<E, GpsEph>::value ? GnssID::GPS : std::is_same<E, GalEph>::value ? GnssID::Galileo : GnssID::Glonass;
}

template <typename E>
E make(int sat, uint64_t seed, int64_t toe)
{
    E e(sat);
    makeEph(e, seed, toe);
    if constexpr (std::is_same<E, GloEph>::value) e.slot = sat % 14 - 7;
    return e;
}
double wavelength(const GpsEph&) { return C / 1575.42e6; }
double wavelength(const GalEph&) { return C / 1575.42e6; }
double wavelength(const GloEph& e) { return C / (1602e6 + 562500.0 * (e.sat % 14 - 7)); }

// ------------------------------------------------------------------ the recorded ephemerides
struct Rec
{
    int sys, sat;
    uint64_t seed;
    int64_t toe;   // relative to gps0, s
    int64_t t;     // when it was recorded, ns after the start
};
struct World
{
    int64_t gps0 = 0, epoch = 0;  // epoch: UTC second the run starts in
    int64_t frac = 0;             // and nanosecond
    std::vector<Rec> recs;
    std::map<int, std::map<int64_t, GpsEph>> gps;
    std::map<int, std::map<int64_t, GalEph>> gal;
    std::map<int, std::map<int64_t, GloEph>> glo;
    std::map<std::pair<int, int>, double> lambda;
    UTCTime t0() const { return at(epoch, frac); }

    template <typename E>
    void add(std::map<int, std::map<int64_t, E>>& m, const Rec& r)
    {
        E e = make<E>(r.sat, r.seed, gps0 + r.toe);
        lambda[{gnssOf<E>(), r.sat}] = wavelength(e);
        m[r.sat].erase(r.toe);
        m[r.sat].emplace(r.toe, e);
    }
    explicit World(const Plan& p)
    {
        gps0 = p.get("gps0");
        epoch = gps0 + UTCTime::GPS_UTC_OFFSET;
        frac = p.get("frac");
        for (auto& o : p.ops)
            if (o.name == "eph") recs.push_back({(int)o.i(0), (int)o.i(1), o.u(2), o.i(3), o.i(4)});
        std::stable_sort(recs.begin(), recs.end(), [](const Rec& a, const Rec& b) { return a.t < b.t; });
        for (auto& r : recs)
        {
            if (r.sys == 0) add(gps, r);
            else if (r.sys == 1) add(gal, r);
            else add(glo, r);
        }
    }
    std::string write(const std::string& dir, Run* run)
    {
        logging::Logger log(t0(), dir);
        std::set<int> used;
        for (auto& r : recs) used.insert(r.sys);
        if (used.count(0)) log.initStream<GpsEph>(logging::GPS_EPH, {"eph"});
        if (used.count(1)) log.initStream<GalEph>(logging::GAL_EPH, {"eph"});
        if (used.count(2)) log.initStream<GloEph>(logging::GLO_EPH, {"eph"});
        for (auto& r : recs)
        {
            const UTCTime t = at(epoch, frac + r.t);
            if (r.sys == 0) log.log(logging::GPS_EPH, t, make<GpsEph>(r.sat, r.seed, gps0 + r.toe));
            else if (r.sys == 1) log.log(logging::GAL_EPH, t, make<GalEph>(r.sat, r.seed, gps0 + r.toe));
            else log.log(logging::GLO_EPH, t, make<GloEph>(r.sat, r.seed, gps0 + r.toe));
        }
        const std::string id = log.logId();
        log.close(at(epoch, frac + 100 * NS));
        for (auto& e : fs::directory_iterator(dir)) return e.path().string();
        return dir;
    }
    template <typename E>
    static std::vector<const E*> closest(const std::map<int, std::map<int64_t, E>>& m, int sat, const UTCTime& t)
    {
        std::vector<const E*> out;
        double best = 1e300;
        for (auto& kv : m.at(sat)) best = std::min(best, std::fabs(diff(t, kv.second.toe)));
        for (auto& kv : m.at(sat))
            if (std::fabs(diff(t, kv.second.toe)) == best) out.push_back(&kv.second);
        return out;
    }
    // State at time t; ok = false where the choice of ephemeris is ambiguous around t
    template <typename E>
    static Orbit stateOf(const std::map<int, std::map<int64_t, E>>& m, int sat, const UTCTime& t, bool* ok)
    {
        auto a = closest(m, sat, t), b = closest(m, sat, at(t.sec, t.nsec - 400000000)), c = closest(m, sat, at(t.sec, t.nsec + 400000000));
        if (a != b || a != c) *ok = false;
        return orbit(*a[0], t);
    }
    Orbit state(int gnss, int sat, const UTCTime& t, bool* ok) const
    {
        return gnss == GnssID::GPS ? stateOf(gps, sat, t, ok) : gnss == GnssID::Galileo ? stateOf(gal, sat, t, ok) : stateOf(glo, sat, t, ok);
    }
};

// ------------------------------------------------------------------ configuration of one experiment
struct Config
{
    std::map<std::string, double> v;
    bool p_b2g = false;
    Vec3 lever = Vec3::Zero(), lla = Vec3::Zero();
    std::vector<Vec3> waypoints;
    explicit Config(const Plan& p)
    {
        for (const char* k : {"max_speed", "max_omega", "gnss_update_rate", "prange_stdev", "cphase_stdev", "doppler_stdev", "clock_walk_stdev", "clock_init_stdev", "update_rate",
                              "accel_noise_stdev", "accel_walk_stdev", "gyro_noise_stdev", "gyro_walk_stdev", "input_noise"})
            if (p.hdr.count(k)) v[k] = p.getd(k);
        p_b2g = p.get("has_p_b2g");
        if (p_b2g) lever << p.getd("px"), p.getd("py"), p.getd("pz");
        lla << p.getd("lat"), p.getd("lon"), p.getd("alt");
        for (auto& o : p.ops)
            if (o.name == "wp") waypoints.push_back(Vec3(o.d(0), o.d(1), o.d(2)));
    }
    double get(const char* k, double d) const { return v.count(k) ? v.at(k) : d; }
    std::string yaml(const std::string& eph, const std::string& out, double dt, double tmax) const
    {
        std::ostringstream s;
        s.precision(17);
        for (auto& kv : v) s << kv.first << ": " << kv.second << "\n";
        if (p_b2g) s << "p_b2g: [" << lever(0) << ", " << lever(1) << ", " << lever(2) << "]\n";
        s << "ref_lla: [" << lla(0) << ", " << lla(1) << ", " << lla(2) << "]\n";
        if (!waypoints.empty())
        {
            s << "waypoints: [";
            for (size_t k = 0; k < waypoints.size(); ++k) s << (k ? ", [" : "[") << waypoints[k](0) << ", " << waypoints[k](1) << ", " << waypoints[k](2) << "]";
            s << "]\n";
        }
        s << "dt: " << dt << "\ntmax: " << tmax << "\neph_log: \"" << eph << "\"\noutput_dir: \"" << out << "\"\n";
        return s.str();
    }
};

// geodesy
Vec3 ecefOf(const Vec3& lla)
{
    const double a = 6378137.0, b = 6356752.314245, e2 = 1 - b * b / (a * a), N = a / std::sqrt(1 - e2 * std::sin(lla(0)) * std::sin(lla(0)));
    return Vec3((N + lla(2)) * std::cos(lla(0)) * std::cos(lla(1)), (N + lla(2)) * std::cos(lla(0)) * std::sin(lla(1)), (N * (1 - e2) + lla(2)) * std::sin(lla(0)));
}
mc::Mat3 nedToEcef(const Vec3& lla)  // columns: north, east, down
{
    const double sp = std::sin(lla(0)), cp = std::cos(lla(0)), sl = std::sin(lla(1)), cl = std::cos(lla(1));
    mc::Mat3 R;
    R << -sp * cl, -sl, -cp * cl, -sp * sl, cl, -cp * sl, cp, 0, -sp;
    return R;
}
// rotation that turns body coordinates into reference coordinates, from the unit quaternion (w, x, y, z)
mc::Mat3 rot(double w, double x, double y, double z)
{
    mc::Mat3 R;
    R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x),
        1 - 2 * (x * x + y * y);
    return R;
}
template <typename Q>
mc::Mat3 rotOf(const Q& q) { return rot(q.w(), q.x(), q.y(), q.z()); }

void configure(const Config& c, const World& w, const std::string& eph_log, mc::sim::Sim::Options& o)
{
    o.wp_options.max_speed = c.get("max_speed", o.wp_options.max_speed);
    o.wp_options.max_omega = c.get("max_omega", o.wp_options.max_omega);
    if (!c.waypoints.empty()) o.wp_options.waypoints = c.waypoints;
    o.input_noise = c.get("input_noise", o.input_noise);
    o.gnss_options.ephemeris_log = eph_log;
    o.gnss_options.update_rate_hz_ = c.get("gnss_update_rate", o.gnss_options.update_rate_hz_);
    o.gnss_options.pseudorange_stdev_ = c.get("prange_stdev", o.gnss_options.pseudorange_stdev_);
    o.gnss_options.carrier_phase_stdev_ = c.get("cphase_stdev", o.gnss_options.carrier_phase_stdev_);
    o.gnss_options.doppler_stdev_ = c.get("doppler_stdev", o.gnss_options.doppler_stdev_);
    o.gnss_options.clock_walk_stdev_ = c.get("clock_walk_stdev", o.gnss_options.clock_walk_stdev_);
    o.gnss_options.clock_init_stdev_ = c.get("clock_init_stdev", o.gnss_options.clock_init_stdev_);
    o.imu_options.update_rate_hz = c.get("update_rate", o.imu_options.update_rate_hz);
    o.imu_options.accel_noise_stdev = c.get("accel_noise_stdev", o.imu_options.accel_noise_stdev);
    o.imu_options.accel_walk_stdev = c.get("accel_walk_stdev", o.imu_options.accel_walk_stdev);
    o.imu_options.gyro_noise_stdev = c.get("gyro_noise_stdev", o.imu_options.gyro_noise_stdev);
    o.imu_options.gyro_walk_stdev = c.get("gyro_walk_stdev", o.imu_options.gyro_walk_stdev);
    if (c.p_b2g) o.gnss_options.p_b2g = c.lever;
    mc::math::DQuat<double> T(mc::utils::WGS84::dq_ecef2ned(mc::utils::WGS84::lla2ecef(c.lla)));
    o.gnss_options.T_e2n = T;
    o.car_options.t0 = w.t0();
}

// Sees everything the simulator reports.
struct Watch
{
    std::vector<mc::meas::GnssObservation> obs;
    int n_obs = 0, n_imu = 0;
    mc::meas::ImuSample imu;
    std::vector<std::pair<int, std::pair<int, int64_t>>> ephs;  // constellation, satellite, GPS time of ephemeris
    std::vector<GpsEph> g;
    std::vector<GalEph> e;
    std::vector<GloEph> r;
    void clear() { obs.clear(); ephs.clear(); g.clear(); e.clear(); r.clear(); n_obs = n_imu = 0; }
    void connect(mc::sim::Sim& s, unsigned which = 31)
    {
        if (which & 1) s.registerGnssCB([this](std::vector<mc::meas::GnssObservation> o) { obs = o; ++n_obs; });
        if (which & 2) s.registerImuCB([this](mc::meas::ImuSample i) { imu = i; ++n_imu; });
        if (which & 4) s.registerGPSEphCb([this](const GpsEph& x) { g.push_back(x); });
        if (which & 8) s.registerGalEphCb([this](const GalEph& x) { e.push_back(x); });
        if (which & 16) s.registerGloEphCb([this](const GloEph& x) { r.push_back(x); });
    }
};

void genWorld(Rng& rng, Plan& p, bool thorough, double span_s, bool switches)
{
    p.set("gps0", rng.range(2100, 3000) * 604800ll + (rng.chance(0.3) ? rng.range(-20000, 20000) : rng.range(0, 604799)));
    p.set("frac", rng.chance(0.5) ? 0 : rng.range(0, 999999999));
    const int n = (int)rng.range(1, thorough ? 20 : 8);
    std::set<std::pair<int, int>> seen;
    for (int k = 0; k < n; ++k)
    {
        const int sys = (int)rng.below(3), sat = (int)rng.range(1, 30);
        if (!seen.insert({sys, sat}).second) continue;
        const int m = switches && rng.chance(0.3) ? (int)rng.range(2, 4) : 1;
        int64_t toe = rng.range(-4000, 3000);
        if (m > 1 && rng.chance(0.7)) toe = -2 * rng.range(0, (int64_t)std::max(1.0, span_s / 1.0)) - 900;
        for (int j = 0; j < m; ++j)
        {
            int64_t t = rng.chance(0.4) ? 0 : (int64_t)(rng.uniform(0, 1.2) * span_s * 1e9);
            if (rng.chance(0.2)) t = rng.range(-3, 3) * NS;
            p.add("eph", {sys, sat, (int64_t)(rng.u64() >> 8), toe, t});
            if (rng.chance(0.1)) p.add("eph", {sys, sat, (int64_t)(rng.u64() >> 8), toe, t + rng.range(0, 5 * NS)});  // corrected
            toe += rng.chance(0.5) ? 1800 : rng.range(60, 3600);
        }
    }
    if (p.ops.empty()) p.add("eph", {0, 1, 12345, 0, 0});
}
void genPlace(Rng& rng, Plan& p)
{
    p.setd("lat", rng.uniform(-1.4, 1.4));
    p.setd("lon", rng.uniform(-3.1, 3.1));
    p.setd("alt", rng.uniform(-50, 9000));
    p.set("has_p_b2g", rng.chance(0.8));
    p.setd("px", rng.uniform(-3, 3));
    p.setd("py", rng.uniform(-3, 3));
    p.setd("pz", rng.uniform(-3, 3));
    p.setd("max_speed", rng.uniform(0.5, 30));
    p.setd("max_omega", rng.uniform(0.1, 2));
    if (rng.chance(0.7))
    {
        const int n = (int)rng.range(1, 5);
        for (int k = 0; k < n; ++k)
        {
            Op& o = p.add("wp");
            o.args = {tokd(rng.uniform(-60, 60)), tokd(rng.uniform(-60, 60)), tokd(0)};
        }
    }
}
void genNoise(Rng& rng, Plan& p, bool any)
{
    for (const char* k : {"prange_stdev", "cphase_stdev", "doppler_stdev", "clock_walk_stdev", "clock_init_stdev", "accel_noise_stdev", "accel_walk_stdev", "gyro_noise_stdev", "gyro_walk_stdev", "input_noise"})
        p.setd(k, 0);
    if (!any) return;
    if (rng.chance(0.6)) p.setd("prange_stdev", rng.uniform(0.5, 10));
    if (rng.chance(0.6)) p.setd("cphase_stdev", rng.uniform(0.001, 0.05));
    if (rng.chance(0.6)) p.setd("doppler_stdev", rng.uniform(0.1, 3));
    if (rng.chance(0.6)) p.setd("clock_walk_stdev", std::pow(10, rng.uniform(-11, -7)));
    if (rng.chance(0.6)) p.setd("clock_init_stdev", std::pow(10, rng.uniform(-9, -4)));
    if (rng.chance(0.6)) p.setd("accel_noise_stdev", rng.uniform(0.01, 0.5));
    if (rng.chance(0.6)) p.setd("gyro_noise_stdev", rng.uniform(0.001, 0.1));
    if (rng.chance(0.3)) p.setd("accel_walk_stdev", rng.uniform(0.001, 0.1));
    if (rng.chance(0.3)) p.setd("gyro_walk_stdev", rng.uniform(0.001, 0.1));
    if (rng.chance(0.5)) p.setd("input_noise", rng.uniform(0.001, 0.1));
}

// Steps: how many, how long each (ns)
int64_t genSteps(Rng& rng, Plan& p, bool thorough, int64_t max_dt)
{
    const int n = (int)rng.range(5, thorough ? 60 : 20);
    int64_t total = 0;
    for (int k = 0; k < n; ++k)
    {
        int64_t dt = rng.pick(std::vector<int64_t>{1000000, 2000000, 4000000, 5000000, 10000000, 10000000, 20000000, 50000000, 100000000});
        if (rng.chance(0.2)) dt = rng.range(300000, 30000000);
        if (rng.chance(0.1)) dt = rng.range(1, 3) * 100000000;  // a slow step
        if (rng.chance(0.05)) dt = rng.range(1000, 100000);
        dt = std::min(dt, max_dt);
        const int64_t m = rng.range(1, thorough ? 80 : 40);
        p.add("step", {m, dt});
        total += m * dt;
    }
    return total;
}

}  // namespace
