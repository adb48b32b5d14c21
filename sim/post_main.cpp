// The post-processing program end to end (C11): a recorded log goes in, the program runs for real from
// its main() on, and what it wrote is compared with what an estimator gives for the same history.
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <experimental/filesystem>
#include <fstream>
#include <memory>

#include "common/logging/log_key.h"
#include "common/logging/log_reader.h"
#include "common/logging/log_writer.h"
#include "common/math/two_jet.h"
#include "common/measurements/imu.h"
#include "core/ekf/rtk_ekf_estimator.h"
#include "sky.h"

extern "C" int post_main(int argc, char** argv);

using namespace dst;
using namespace sky;
using namespace mc::ekf;
using mc::GnssID;
using mc::Vec1;
using mc::Vec2;
using mc::Vec6;
using mc::meas::GnssObservation;
using mc::meas::ImuSample;
namespace fs = std::experimental::filesystem;
namespace logging = mc::logging;
using DQ = mc::math::DQuat<double>;
using Jet = mc::math::TwoJet<double>;

namespace sky {
jmp_buf exit_jmp;
void onExitJump(int) { longjmp(exit_jmp, 1); }
}  // namespace sky

namespace {

constexpr int64_t NS = 1000000000ll;

__attribute__((noinline)) void dirtyStack(int fill)
{
    char* p = static_cast<char*>(__builtin_alloca(3000000));
    memset(p, fill, 3000000);
    asm volatile("" : : "r"(p) : "memory");
}
void dirtyHeap(int fill)
{
    std::vector<void*> v;
    for (size_t n = 16; n < 200000; n = n * 5 / 4)
        for (int k = 0; k < 12; ++k)
        {
            v.push_back(malloc(n));
            memset(v.back(), fill, n);
        }
    for (void* p : v) free(p);
}

struct Setup
{
    bool sim_start = false;
    Vec3 lla, trans0, vel0, p_b2g;
    double heading = 0;  // degrees
    double q0[4];
    Vec6 pose0, T0, point;
    Vec3 v0, a0, g0, b0, qa, qg, qv, qb;
    Vec2 c0[3], qc[3];
    Vec6 qpose, qT;
    double sd0, qsd, hold;
    Vec2 obs;
    Vec3 acc, gyr;
    explicit Setup(const Plan& p)
    {
        sim_start = p.get("simstart");
        Rng r(p.get("ctx"));
        auto v3 = [&](double s) { return Vec3(r.uniform(-s, s), r.uniform(-s, s), r.uniform(-s, s)); };
        lla << r.uniform(-80, 80), r.uniform(-179, 179), r.uniform(-50, 3000);
        trans0 = v3(r.chance(0.5) ? 0 : 50);
        vel0 = v3(r.chance(0.3) ? 0 : 15);
        p_b2g = v3(2);
        heading = r.chance(0.3) ? 0 : r.uniform(-180, 360);
        Vec3 w = v3(r.chance(0.4) ? 0 : 0.4);
        const double a = w.norm(), s = a > 0 ? std::sin(a / 2) / a : 0;
        q0[0] = std::cos(a / 2); q0[1] = s * w(0); q0[2] = s * w(1); q0[3] = s * w(2);
        auto some = [&](auto& b, double v) { for (int k = 0; k < b.size(); ++k) b(k) = r.chance(0.15) ? 0 : v * std::exp(r.uniform(-1.5, 1)); };
        some(pose0, 0.2); some(v0, 0.1); some(a0, 0.1); some(g0, 0.02); some(b0, 0.05); some(T0, 1e-6);
        for (auto& c : c0) some(c, 1);
        for (auto& c : qc) some(c, 0.1);
        some(qpose, 1e-4); some(qv, 1e-3); some(qa, 1e-3); some(qg, 1e-4); some(qb, 1e-4); some(qT, 1e-9); some(point, 1);
            for (int k = 0; k < 2; ++k) obs(k) = 0.1 * std::exp(r.uniform(-1.5, 1));  // without any, what is observed more than once is singular
        for (int k = 0; k < 3; ++k) acc(k) = std::exp(r.uniform(-5, -1)), gyr(k) = std::exp(r.uniform(-7, -3));
        sd0 = r.uniform(0.1, 2); qsd = r.uniform(0, 0.01); hold = r.uniform(0.001, 0.1);
    }
    template <typename V>
    static void list(std::ostream& o, const char* k, const V& v, int from, int n)
    {
        o << k << ": [";
        for (int i = 0; i < n; ++i) o << (i ? ", " : "") << fmtd(v(from + i));
        o << "]\n";
    }
    static std::string fmtd(double d)
    {
        char b[40];
        snprintf(b, sizeof b, "%.17g", d);
        return b;
    }
    void yaml(std::ostream& o) const
    {
        o << "use_init_sim_state: " << (sim_start ? "true" : "false") << "\n";
        list(o, "translation0", trans0, 0, 3);
        o << "rotation0: [" << fmtd(q0[0]) << ", " << fmtd(q0[1]) << ", " << fmtd(q0[2]) << ", " << fmtd(q0[3]) << "]\n";
        list(o, "vel0", vel0, 0, 3);
        list(o, "p_b2g0", p_b2g, 0, 3);
        list(o, "lla0_deg", lla, 0, 3);
        o << "heading0_deg: " << fmtd(heading) << "\n";
        auto block = [&](const char* name, const Vec6& pose, const Vec3& v, const Vec3& a, const Vec3& g, const Vec2* c, const Vec3& b, const Vec6& T, double sd) {
            o << name << ":\n";
            list(o, "  translation", pose, 3, 3);
            list(o, "  rotation", pose, 0, 3);
            list(o, "  vel", v, 0, 3);
            list(o, "  acc_bias", a, 0, 3);
            list(o, "  gyro_bias", g, 0, 3);
            list(o, "  gps_clk", c[0], 0, 2);
            list(o, "  gal_clk", c[1], 0, 2);
            list(o, "  glo_clk", c[2], 0, 2);
            list(o, "  p_b2g", b, 0, 3);
            list(o, "  T_I2e", T, 0, 6);
            o << "  sd: " << fmtd(sd) << "\n";
        };
        block("P0_stdev", pose0, v0, a0, g0, c0, b0, T0, sd0);
        block("process_stdev", qpose, qv, qa, qg, qc, qb, qT, qsd);
        list(o, "point_pos_stdev", point, 0, 6);
        list(o, "obs_stdev", obs, 0, 2);
        // (as the shipped configuration has them)
        list(o, "gps_obs_stdev", obs, 0, 2);
        list(o, "gal_obs_stdev", obs, 0, 2);
        list(o, "glo_obs_stdev", obs, 0, 2);
        o << "fix_and_hold_stdev: " << fmtd(hold) << "\nimu_stdev:\n";
        list(o, "  gyro", gyr, 0, 3);
        list(o, "  accel", acc, 0, 3);
    }
};

template <typename V> V sq(const V& v) { return v.cwiseProduct(v); }

struct TruthRec { int64_t t; Jet x; DQ T; Vec2 clk; };

TruthRec truth(int64_t t, uint64_t seed, const Setup& s)
{
    Rng r(seed);
    auto v3 = [&](double k) { return Vec3(r.uniform(-k, k), r.uniform(-k, k), r.uniform(-k, k)); };
    TruthRec o;
    o.t = t;
    Vec6 d;
    d << v3(0.4), v3(100);
    o.x.x = DQ::exp(d);
    d << v3(0.3), v3(15);
    o.x.dx = d;
    d << v3(0.3), v3(2);
    o.x.d2x = d;
    const double lat = s.lla(0) * M_PI / 180, lon = s.lla(1) * M_PI / 180;
    const double a = 6378137.0, f = 1 / 298.257223563, e2 = f * (2 - f), N = a / std::sqrt(1 - e2 * std::sin(lat) * std::sin(lat));
    const Vec3 p((N + s.lla(2)) * std::cos(lat) * std::cos(lon), (N + s.lla(2)) * std::cos(lat) * std::sin(lon), (N * (1 - e2) + s.lla(2)) * std::sin(lat));
    d << v3(0.7), 0, 0, 0;
    o.T = DQ(DQ::exp(d).rotation(), p);
    o.clk << r.uniform(-100, 100), r.uniform(-1, 1);
    return o;
}
ImuSample imu(int64_t epoch, int64_t t, uint64_t seed)
{
    Rng r(seed);
    auto v3 = [&](double k) { return Vec3(r.uniform(-k, k), r.uniform(-k, k), r.uniform(-k, k)); };
    ImuSample o;
    o.t = at(epoch, t);
    o.accel = Vec3(0, 0, -9.80665) + v3(1.5);
    o.gyro = v3(0.3);
    if (r.chance(0.01)) o.accel += v3(200), o.gyro += v3(20);  // a blow
    return o;
}
GnssObservation obs(int64_t epoch, int64_t t, int gnss, int sat, uint64_t seed)
{
    Rng r(seed);
    GnssObservation o;
    o.t = at(epoch, t);
    o.gnss_id = gnss;
    o.sat_num = sat;
    o.freq = 0;
    o.pseudorange = r.uniform(2e7, 2.6e7);
    o.doppler = r.uniform(-800, 800);
    o.carrier_phase = r.uniform(1e8, 1.3e8);
    return o;
}

struct Est
{
    UTCTime t;
    std::vector<double> v;
};

struct Post : Scenario
{
    double watchdogSec() const override { return 60; }
    bool keep(const Op& o) const override { return o.name == "truth"; }

    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p;
        p.set("ctx", rng.u64() >> 1);
        const int64_t epoch = 1300000000ll + rng.range(0, 200000000);
        p.set("epoch", epoch);
        const int64_t frac = rng.chance(0.4) ? 0 : rng.range(0, NS - 1);
        p.set("frac", frac);
        const bool sim_start = rng.chance(0.6), one_log = rng.chance(0.3);
        p.set("simstart", sim_start);
        p.set("onelog", one_log);
        p.set("older", rng.chance(0.4));   // a log from before lies beside it
        p.set("direct", rng.chance(0.5));  // the log is named, or the folder it is in
        p.set("stack", rng.pick(std::vector<int64_t>{0, 0x40, 0xff, 0x01, 0x7f, 0xbf}));
        p.set("heap", rng.pick(std::vector<int64_t>{0, 0x40, 0xff, 0x01, 0x7f}));
        p.set("host", rng.range(-100000, 100000000));
        p.set("cost", rng.chance(0.5) ? 0 : rng.range(1, 3000000));
        // the ephemerides may have been recorded (long) before
        const int64_t before = one_log ? 0 : rng.chance(0.5) ? 0 : sim_start ? rng.range(1, 3600) : rng.range(0, 1);
        p.set("before", before);
        const double long_run = thorough ? 0.1 : 0.04;
        const int64_t span = rng.chance(long_run) ? rng.range(40 * NS, 55 * NS) : rng.range(NS / 5, (thorough ? 8 : 4) * NS);
        // satellites
        std::vector<std::pair<int, int>> sats;
        const int n_sat = (int)rng.range(1, rng.chance(0.1) ? 36 : 12);
        for (int k = 0; k < n_sat; ++k)
        {
            const int sys = (int)rng.below(3), sat = (int)rng.range(1, 30);
            const bool dup = std::find(sats.begin(), sats.end(), std::make_pair(sys, sat)) != sats.end();
            if (dup) continue;
            sats.push_back({sys, sat});
            const int n = (int)rng.range(1, 2);
            for (int j = 0; j < n; ++j)
            {
                int64_t rec = (one_log ? rng.range(0, span) : rng.range(-before * NS, rng.chance(0.7) ? 0 : span)) + (int64_t)p.ops.size();
                if (rec < -before * NS || (one_log && rec < 0)) rec = 0;
                // fresh, or too old to be taken; not something the estimator would stop at
                const int64_t toe = rng.chance(0.1) ? -(int64_t)rng.range(7300 + 3700, 20000) : rng.chance(0.05) ? rng.range(7400, 12000) : rng.range(-7000, 7100);
                p.add("eph", {sys, sat, (int64_t)(rng.u64() >> 1), toe, rec});
            }
        }
        if (rng.chance(0.15)) sats.push_back({(int)rng.below(3), 40});  // nothing is known about it
        // truth
        const int64_t first = rng.range(0, rng.chance(0.5) ? 10000000 : 300000000);
        if (sim_start || rng.chance(0.5))
            for (int k = 0; k < 3; ++k) p.add("truth", {first + k * 10000000, (int64_t)(rng.u64() >> 1)});
        // inertial samples
        const double rate = rng.pick(std::vector<double>{20, 50, 100, 200, 400});
        const int64_t period = (int64_t)(1e9 / (span > 20 * NS ? std::min(rate, 100.0) : rate));
        int64_t jitter = rng.chance(0.5) ? 0 : period / 3;
        const bool has_imu = rng.chance(0.93);
        std::set<int64_t> imu_t;
        int64_t gap_at = rng.chance(0.3) ? rng.range(0, span) : -1;
        if (has_imu)
            for (int64_t t = rng.range(0, period); t < span; t += period)
            {
                if (gap_at >= 0 && t > gap_at && t < gap_at + 700000000) continue;
                const int64_t u = t + (jitter ? rng.range(0, jitter) : 0);
                imu_t.insert(u);
                p.add("imu", {u, (int64_t)(rng.u64() >> 1)});
            }
        // observations: as simulated (recorded when they were made) or as received (some time later)
        const bool received = rng.chance(0.5);
        const bool tie = !received && rng.chance(0.4);
        const double gps_rate = rng.pick(std::vector<double>{1, 2, 5, 10, 10, 50, 100, 125, 200});
        const int64_t gper = (int64_t)(1e9 / (span > 20 * NS ? std::min(gps_rate, 5.0) : gps_rate));
        int64_t last_stamp = -1;
        for (int64_t t = rng.range(0, gper); t < span; t += gper)
        {
            int64_t tt = tie && !imu_t.empty() ? (imu_t.lower_bound(t) == imu_t.end() ? t : *imu_t.lower_bound(t)) : t;
            int64_t stamp = received ? tt + rng.range(1000000, rng.chance(0.2) ? 250000000 : 60000000) : tt;
            if (received && last_stamp >= 0 && rng.chance(0.1)) stamp = std::max(stamp, last_stamp) + rng.range(0, 9000000);  // read in one go
            if (stamp <= last_stamp) stamp = last_stamp + rng.range(1, 3000000);
            if (!received) tt = stamp;
            if (!tie)
                while (imu_t.count(stamp) || imu_t.count(tt)) { ++stamp; if (!received) tt = stamp; else ++tt; }
            const int64_t stamp0 = stamp;
            for (auto& s : sats)
            {
                if (rng.chance(0.1)) continue;
                if (s.second == 40 && !rng.chance(0.3)) continue;
                p.add("obs", {stamp, tt, s.first, s.second, (int64_t)(rng.u64() >> 1)});
                last_stamp = stamp;
            }
            (void)stamp0;
        }
        std::stable_sort(p.ops.begin(), p.ops.end(), [](const Op& a, const Op& b) {
            auto key = [](const Op& o) { return o.name == "eph" ? o.i(4) : o.i(0); };
            return key(a) < key(b);
        });
        // the recording may have been cut off
        if (rng.chance(0.25)) p.add("cut", {(int64_t)rng.below(2), rng.range(1, 2000)});
        if (rng.chance(0.4)) p.add("read", {rng.chance(0.5) ? 0 : rng.range(2, 9), rng.chance(0.5) ? 0 : rng.range(2, 9)});
        if (rng.chance(0.4)) p.add("write", {rng.chance(0.5) ? 0 : rng.range(2, 9), rng.chance(0.5) ? 0 : rng.range(2, 9)});
        return p;
    }

    template <typename E>
    static E ephOf(const Op& o, int64_t gps0)
    {
        E e((int)o.i(1));
        makeEph(e, o.u(2), gps0 + o.i(3));
        if constexpr (std::is_same<E, GloEph>::value) e.slot = e.sat % 14 - 7;
        return e;
    }

    static void writeLog(logging::Logger& log, const Plan& plan, const Setup& s, bool eph, bool data, int64_t epoch, int64_t frac, int64_t gps0)
    {
        bool used[3] = {false, false, false}, any_truth = false;
        for (auto& o : plan.ops)
        {
            if (o.name == "eph") used[o.i(0)] = true;
            if (o.name == "truth") any_truth = true;
        }
        if (eph)
        {
            if (used[0]) log.initStream<GpsEph>(logging::GPS_EPH, {"eph"});
            if (used[1]) log.initStream<GalEph>(logging::GAL_EPH, {"eph"});
            if (used[2]) log.initStream<GloEph>(logging::GLO_EPH, {"eph"});
        }
        if (data)
        {
            if (any_truth) log.initStream<Jet, DQ, Vec2>(logging::TRUTH_POSE, {"pose", "T_e2g", "clk"});
            log.initStream<ImuSample>(logging::IMU_SAMPLE, {"imu"});
            log.initStream<GnssObservation>(logging::GNSS_OBS, {"obs"});
        }
        for (auto& o : plan.ops)
        {
            if (o.name == "eph" && eph)
            {
                const UTCTime t = at(epoch, frac + o.i(4));
                if (o.i(0) == 0) log.log(logging::GPS_EPH, t, ephOf<GpsEph>(o, gps0));
                if (o.i(0) == 1) log.log(logging::GAL_EPH, t, ephOf<GalEph>(o, gps0));
                if (o.i(0) == 2) log.log(logging::GLO_EPH, t, ephOf<GloEph>(o, gps0));
            }
            if (!data) continue;
            const UTCTime t = at(epoch, frac + (o.name == "cut" || o.name == "read" || o.name == "write" ? 0 : o.i(0)));
            if (o.name == "truth")
            {
                const TruthRec r = truth(o.i(0), o.u(1), s);
                log.log(logging::TRUTH_POSE, t, r.x, r.T, r.clk);
            }
            if (o.name == "imu") log.log(logging::IMU_SAMPLE, t, imu(epoch, frac + o.i(0), o.u(1)));
            if (o.name == "obs") log.log(logging::GNSS_OBS, t, obs(epoch, frac + o.i(1), gnss((int)o.i(2)), (int)o.i(3), o.u(4)));
        }
    }
    static int gnss(int sys) { return sys == 0 ? GnssID::GPS : sys == 1 ? GnssID::Galileo : GnssID::Glonass; }

    struct Expected
    {
        bool ok = true;
        UTCTime t0;
        State x0;
        std::vector<Est> states;       // current after the first k messages
        std::vector<int64_t> stamps;   // of the messages
        std::string residuals;         // as the program should have logged them
        int64_t bundles = 0;
    };

    static void translationOf(const DQ& d, Vec3& t)
    {
        const Vec3 r(d.real().x(), d.real().y(), d.real().z()), e(d.dual().x(), d.dual().y(), d.dual().z());
        t = 2 * (d.real().w() * e - d.dual().w() * r - e.cross(r));
    }
    static Est snapshot(const RtkEkfEstimator& e)
    {
        Est o;
        o.t = e.t();
        auto put = [&](const auto& v) { for (int k = 0; k < v.size(); ++k) o.v.push_back(v(k)); };
        for (int k = 0; k < 4; ++k) o.v.push_back(e.x().pose.data()[k]);
        Vec3 t;
        translationOf(e.x().pose, t);
        put(t);
        put(e.x().vel);
        put(e.u().gyro);
        put(e.u().accel);
        put(e.p_ecef());
        put(e.x().gps_clk);
        put(e.x().gal_clk);
        put(e.x().glo_clk);
        return o;
    }

    struct Msg
    {
        int64_t stamp;
        bool is_imu;
        ImuSample imu;
        int64_t t;  // of the observations
        std::vector<GnssObservation> obs;
    };

    static Expected reference(const Plan& plan, const Setup& s, const std::vector<Msg>& msgs, const UTCTime& start, int64_t epoch, int64_t frac, int64_t gps0, const std::string& dir, Run& run)
    {
        Expected out;
        State x;
        x.setIdentity();
        x.num_sd = 0;
        Input u;
        if (s.sim_start)
        {
            for (auto& o : plan.ops)
                if (o.name == "truth")
                {
                    const TruthRec r = truth(o.i(0), o.u(1), s);
                    out.t0 = at(epoch, frac + r.t);
                    x.pose = r.x.x;
                    x.vel = r.x.dx.tail<3>();
                    u.accel = r.x.d2x.tail<3>() - Vec3(0, 0, 9.80665);
                    u.gyro = r.x.dx.head<3>();
                    x.T_I2e = r.T.inverse();
                    break;
                }
        }
        else
        {
            out.t0 = start;
            x.pose = DQ(quat(s.q0[0], s.q0[1], s.q0[2], s.q0[3]), s.trans0);
            x.vel = s.vel0;
            // north-east-down at the place, turned to the heading
            const double lat = s.lla(0) * M_PI / 180, lon = s.lla(1) * M_PI / 180, h = s.heading * M_PI / 180;
            const double a = 6378137.0, f = 1 / 298.257223563, e2 = f * (2 - f), N = a / std::sqrt(1 - e2 * std::sin(lat) * std::sin(lat));
            const Vec3 p((N + s.lla(2)) * std::cos(lat) * std::cos(lon), (N + s.lla(2)) * std::cos(lat) * std::sin(lon), (N * (1 - e2) + s.lla(2)) * std::sin(lat));
            const Vec3 north(-std::sin(lat) * std::cos(lon), -std::sin(lat) * std::sin(lon), std::cos(lat)), east(-std::sin(lon), std::cos(lon), 0), down = -p0(lat, lon);
            const Vec3 fwd = std::cos(h) * north + std::sin(h) * east, right = std::cos(h) * east - std::sin(h) * north;
            mc::Mat3 R;  // columns: axes of the local frame in the earth frame
            R << fwd, right, down;
            x.T_I2e = DQ(quatOf(R), p).inverse();
            u.accel << 0, 0, -9.80665;
            u.gyro.setZero();
            run.state(1);
        }
        x.p_b2g = s.p_b2g;
        x.t = out.t0;
        out.x0 = x;
        Covariance P;
        memset((void*)&P, 0, sizeof P);
        const int nothing = 0;
        (void)nothing;
        P.pose_pose = sq(s.pose0).asDiagonal();
        P.vel_vel = sq(s.v0).asDiagonal();
        P.accBias_accBias = sq(s.a0).asDiagonal();
        P.gyroBias_gyroBias = sq(s.g0).asDiagonal();
        P.gpsClk_gpsClk = sq(s.c0[0]).asDiagonal();
        P.galClk_galClk = sq(s.c0[1]).asDiagonal();
        P.gloClk_gloClk = sq(s.c0[2]).asDiagonal();
        P.pB2g_pB2g = sq(s.b0).asDiagonal();
        P.TI2e_TI2e = sq(s.T0).asDiagonal();
        P.sd_sd(30).diagonal().setConstant(s.sd0 * s.sd0);
        ProcessCovariance q;
        q.pose = sq(s.qpose); q.vel = sq(s.qv); q.accBias = sq(s.qa); q.gyroBias = sq(s.qg); q.gpsClk = sq(s.qc[0]); q.galClk = sq(s.qc[1]); q.gloClk = sq(s.qc[2]);
        q.pB2g = sq(s.qb); q.TI2e = sq(s.qT); q.sd.setConstant(s.qsd * s.qsd);
        InputCovariance qu;
        qu.accel = sq(s.acc);
        qu.gyro = sq(s.gyr);

        fs::create_directories(dir);
        auto e = std::make_unique<RtkEkfEstimator>();
        {
            logging::Logger log(out.t0, dir);
            std::vector<const Op*> ephs;
            for (auto& o : plan.ops) if (o.name == "eph") ephs.push_back(&o);
            std::stable_sort(ephs.begin(), ephs.end(), [](const Op* a, const Op* b) { return a->i(4) < b->i(4); });
            for (auto* o : ephs)
            {
                const double age = std::fabs((double)(o->i(4) + frac) * 1e-9 - (double)o->i(3) );
                if (age > 7200) { run.probe("stale-ephemeris"); continue; }
                if (o->i(0) == 0) e->ephCb(ephOf<GpsEph>(*o, gps0));
                if (o->i(0) == 1) e->ephCb(ephOf<GalEph>(*o, gps0));
                if (o->i(0) == 2) e->ephCb(ephOf<GloEph>(*o, gps0));
            }
            e->init(out.t0, x, P, sq(s.point), sq(s.obs), Vec1(s.hold * s.hold), qu, q, &log);
            e->u() = u;
            out.states.push_back(snapshot(*e));
            out.ok = survives([&] {
                for (auto& m : msgs)
                {
                    if (diff(at(epoch, frac + m.stamp), out.t0) > 45.0) break;
                    if (m.is_imu)
                    {
                        ImuMeas z;
                        z.z.accel = m.imu.accel;
                        z.z.gyro = m.imu.gyro;
                        e->addMeasurement(at(epoch, frac + m.stamp), z);
                    }
                    else if (!m.obs.empty())
                    {
                        e->addMeasurement(at(epoch, frac + m.t), m.obs);
                        ++out.bundles;
                    }
                    out.stamps.push_back(m.stamp);
                    out.states.push_back(snapshot(*e));
                }
            });
            log.close(out.t0);
        }
        if (!out.ok) return out;
        out.residuals = slurp(dir, "GPS_OBS_RESIDUAL.log");
        return out;
    }
    static Vec3 p0(double lat, double lon) { return Vec3(std::cos(lat) * std::cos(lon), std::cos(lat) * std::sin(lon), std::sin(lat)); }
    static mc::math::Quat<double> quat(double w, double x, double y, double z)
    {
        mc::math::Quat<double> q;
        q.arr_ << w, x, y, z;
        return q;
    }
    static mc::math::Quat<double> quatOf(const mc::Mat3& A)
    {
        // such that T.rotation() of the returned transform maps local = R^T * earth
        const mc::Mat3 R = A;
        Eigen::Quaterniond q(R);
        return quat(q.w(), q.x(), q.y(), q.z());
    }
    static std::string slurp(const std::string& dir, const std::string& name)
    {
        for (auto& e : fs::recursive_directory_iterator(dir))
            if (e.path().filename() == name)
            {
                std::ifstream in(e.path().string(), std::ios::binary);
                return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
            }
        return "";
    }
    static bool same(double a, double b, double scale) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-9 * std::max(scale, std::fabs(a)) + 1e-12; }
    static bool same(const Est& a, const Est& b)
    {
        if (!(std::fabs(diff(a.t, b.t)) < 1e-6)) return false;
        if (a.v.size() != b.v.size()) return false;
        // the pose is the same with either sign
        for (int sign = 1; sign >= -1; sign -= 2)
        {
            bool ok = true;
            for (size_t k = 0; ok && k < a.v.size(); ++k) ok = same(a.v[k], k < 4 ? sign * b.v[k] : b.v[k], k < 4 ? 1 : k < 16 ? 10 : 1e6);
            if (ok) return true;
        }
        return false;
    }

    void execute(const Plan& plan, Run& run) override
    {
        const int64_t epoch = plan.get("epoch"), frac = plan.get("frac"), gps0 = epoch - UTCTime::GPS_UTC_OFFSET;
        const int64_t before = plan.get("before");
        Setup s(plan);
        clk::start((epoch + plan.get("host")) * NS);
        const std::string base = run.scratch + "/base", eph_dir = base + "/eph", in_dir = base + "/in", work = base + "/work";
        for (auto& d : {eph_dir, in_dir, work, base + "/logs/post_process"}) fs::create_directories(d);
        if (plan.get("older"))
        {
            logging::Logger old(at(epoch - 5000, frac), in_dir);
            old.initStream<ImuSample>(logging::IMU_SAMPLE, {"imu"});
            old.log(logging::IMU_SAMPLE, at(epoch - 5000, frac), imu(epoch, 0, 7));
            old.close(at(epoch - 4000, frac));
        }
        std::string in_log;
        UTCTime start = at(epoch, frac);
        {
            logging::Logger log(at(epoch, frac), in_dir);
            if (plan.get("onelog"))
                writeLog(log, plan, s, true, true, epoch, frac, gps0);
            else
            {
                std::string eph_log;
                bool any = false;
                for (auto& o : plan.ops) any |= o.name == "eph";
                if (any)
                {
                    logging::Logger el(at(epoch - before, frac), eph_dir);
                    writeLog(el, plan, s, true, false, epoch, frac, gps0);
                    eph_log = eph_dir + "/" + el.logId();
                    el.close(at(epoch, frac));
                    start = at(epoch - before, frac);
                }
                writeLog(log, plan, s, false, true, epoch, frac, gps0);
                if (any) log.amends(eph_log);
            }
            in_log = in_dir + "/" + log.logId();
            log.close(at(epoch + 60, frac));
        }
        // the messages of the log
        std::vector<Msg> msgs;
        int64_t n_imu = 0, n_obs = 0;
        std::vector<size_t> imu_at, obs_at;
        for (size_t k = 0; k < plan.ops.size(); ++k)
        {
            if (plan.ops[k].name == "imu") imu_at.push_back(k);
            if (plan.ops[k].name == "obs") obs_at.push_back(k);
        }
        disk::reset();
        disk::root = base;
        bool cut = false;
        for (auto& o : plan.ops)
        {
            if (o.name == "cut")
            {
                const std::string f = in_log + "/" + (o.i(0) ? "GNSS_OBS.log" : "IMU_SAMPLE.log");
                const int64_t size = (int64_t)fs::file_size(f), left = std::max<int64_t>(0, size - o.i(1));
                auto& list = o.i(0) ? obs_at : imu_at;
                if (list.empty() || size % (int64_t)list.size()) continue;
                const int64_t each = size / (int64_t)list.size();
                fs::resize_file(f, left);
                list.resize(left / each);
                run.fault("cut-off-log");
                cut = true;
            }
            disk::Rule r;
            if (o.name == "read") { r.suffix = ".log"; r.rshort_every = o.i(0); r.reintr_every = o.i(1); disk::rules.push_back(r); }
        }
        for (auto& o : plan.ops)
            if (o.name == "write")
            {
                if (disk::rules.empty()) { disk::Rule r; r.suffix = ".log"; disk::rules.push_back(r); }
                disk::rules[0].short_every = o.i(0);
                disk::rules[0].eintr_every = o.i(1);
            }
        std::vector<Msg> im, om;
        for (size_t k : imu_at)
        {
            const Op& o = plan.ops[k];
            Msg m{o.i(0), true, imu(epoch, frac + o.i(0), o.u(1)), 0, {}};
            im.push_back(m);
        }
        for (size_t k : obs_at)
        {
            const Op& o = plan.ops[k];
            if (om.empty() || om.back().t != o.i(1)) om.push_back(Msg{o.i(0), false, {}, o.i(1), {}});
            om.back().stamp = o.i(0);
            om.back().obs.push_back(obs(epoch, frac + o.i(1), gnss((int)o.i(2)), (int)o.i(3), o.u(4)));
        }
        n_imu = (int64_t)im.size(), n_obs = (int64_t)om.size();
        run.ops(n_imu + n_obs);
        if (s.sim_start && !std::count_if(plan.ops.begin(), plan.ops.end(), [](const Op& o) { return o.name == "truth"; })) return;

        // the program
        std::ofstream(work + "/cfg.yaml") << [&] { std::ostringstream o; s.yaml(o); return o.str(); }();
        std::string a0 = "post_process", a1 = "--config_file", a2 = work + "/cfg.yaml", a3 = "--log", a4 = plan.get("direct") ? in_log : in_dir;
        char* argv[] = {&a0[0], &a1[0], &a2[0], &a3[0], &a4[0], nullptr};
        if (chdir(work.c_str()) != 0) return;
        clk::cost_ns = plan.get("cost");
        dirtyHeap((int)plan.get("heap"));
        dirtyStack((int)plan.get("stack"));
        disk::enabled = true;
        const bool ended = survives([&] { post_main(5, argv); });
        disk::enabled = false;
        run.fault("short-write", disk::st.w_short);
        run.fault("interrupted-write", disk::st.w_eintr);
        run.fault("short-read", disk::st.r_short);
        run.fault("interrupted-read", disk::st.r_eintr);
        clk::cost_ns = 0;

        // either order for what has the same time; a bundle the log ends in may be complete or not; that one is
        // complete may be noticed when the next begins, if that follows closely
        std::string why, cls;
        bool matched = false, refused = false;
        for (int variant = 0; variant < 8 && !matched; ++variant)
        {
            if ((variant & 2) && !cut) continue;
            std::vector<Msg> all;
            std::vector<Msg> o2 = om;
            if (variant & 4)
            {
                bool any = false;
                for (size_t k = 0; k + 1 < o2.size(); ++k)
                    if (o2[k + 1].stamp - o2[k].stamp <= 10000000) o2[k].stamp = o2[k + 1].stamp, any = true;
                if (!any) continue;
            }
            if ((variant & 2) && !o2.empty()) o2.pop_back();
            if (variant & 1) { all = o2; all.insert(all.end(), im.begin(), im.end()); }
            else { all = im; all.insert(all.end(), o2.begin(), o2.end()); }
            std::stable_sort(all.begin(), all.end(), [](const Msg& a, const Msg& b) { return a.stamp < b.stamp; });
            Expected e = reference(plan, s, all, start, epoch, frac, gps0, base + "/ref" + tok(variant), run);
            if (!e.ok) { refused = true; continue; }
            std::string c, w;
            if (!ended) cls = "ended", why = "the program ended early";
            else if (compare(plan, e, base + "/logs/post_process", in_log, c, w, epoch, frac, run)) matched = true;
            else if (why.empty()) cls = c, why = w;
            if (getenv("DST_VARIANTS")) fprintf(stderr, "variant %d: %s %s\n", variant, c.c_str(), w.c_str());
            if (matched)
            {
                const double span = e.stamps.empty() ? 0 : (double)e.stamps.back() * 1e-9;
                run.simTime(span);
                run.state(mix(mix(n_imu > 0, std::min<int64_t>(n_obs, 40)), mix(plan.get("simstart") * 2 + plan.get("onelog"), variant)));
                if (e.bundles) run.probe("bundles", e.bundles);
                if (span > 45) run.probe("past-45s");
                if (e.states.size() > 20) run.nontrivial();
            }
        }
        // (what the estimator does not accept in one of these orders ends the program)
        if (!matched && refused) run.probe("refused");
        else if (!matched) run.fail(cls, "%s", why.c_str());
    }

    static bool compare(const Plan& plan, const Expected& e, const std::string& dir, const std::string& in_log, std::string& cls, std::string& why, int64_t epoch, int64_t frac, Run& run)
    {
        char b[400];
        std::vector<std::string> logs;
        for (auto& d : fs::directory_iterator(dir)) logs.push_back(d.path().string());
        if (logs.size() != 1) { cls = "no-log"; snprintf(b, sizeof b, "%zu logs written", logs.size()); why = b; return false; }
        // the start of the log
        const std::string id = logging::createLogId(e.t0);
        if (fs::path(logs[0]).filename() != id) { cls = "start-time"; snprintf(b, sizeof b, "the log is called %s, the estimate starts at %s", fs::path(logs[0]).filename().c_str(), id.c_str()); why = b; return false; }
        const std::string est = slurp(dir, "ESTIMATE.log");
        const size_t each = 16 + 8 * 25;
        // as a reader with the description finds it
        const size_t n = est.size() / each;
        if (est.size() % each) { cls = "layout"; snprintf(b, sizeof b, "%zu bytes of estimates are not a number of records of %zu bytes", est.size(), each); why = b; return false; }
        std::vector<Est> got(n);
        for (size_t k = 0; k < n; ++k)
        {
            memcpy(&got[k].t.sec, &est[k * each], 8);
            memcpy(&got[k].t.nsec, &est[k * each + 8], 8);
            got[k].v.resize(25);
            memcpy(got[k].v.data(), &est[k * each + 16], 8 * 25);
        }
        // each the state at that point of the history, none skipped.  feasible: the numbers of messages before
        // the latest estimate that fit (rejected measurements leave the state as it is)
        const size_t M = e.stamps.size();
        const int64_t PERIOD = 10000000, slack = 100000;
        auto gap = [&](size_t j) { return j > 0 && j < M ? e.stamps[j] - e.stamps[j - 1] : 0; };
        std::set<size_t> feasible;
        size_t furthest = 0;
        for (size_t k = 0; k < n; ++k)
        {
            std::set<size_t> next;
            bool known = false;
            auto f = feasible.begin();
            bool any = false;
            size_t last = 0;  // the last of the feasible so far, and the latest stamp of theirs
            int64_t latest = INT64_MIN;
            const size_t from = k ? *feasible.begin() : 0;
            for (size_t j = from; j < e.states.size(); ++j)
            {
                if (!same(got[k], e.states[j]))
                {
                    if (!next.empty()) break;
                    continue;
                }
                known = true;
                bool ok = k == 0;
                const int64_t t = j < M ? e.stamps[j] : M ? e.stamps[M - 1] : 0;
                for (; f != feasible.end() && *f <= j; ++f)
                {
                    any = true;
                    last = *f;
                    latest = std::max(latest, *f < M ? e.stamps[*f] : t);
                }
                if (any && (last + 1 >= j || t - gap(j) - latest <= PERIOD + slack)) ok = true;
                if (ok) next.insert(j);
            }
            if (next.empty())
            {
                const Est& w = e.states[std::min(furthest + 1, e.states.size() - 1)];
                size_t bad = 0;
                while (bad < 25 && same(got[k].v[bad], w.v[bad], bad < 4 ? 1 : 1000)) ++bad;
                cls = known ? "estimate-missing" : "estimate";
                if (known)
                    snprintf(b, sizeof b, "none of %zu estimates is after message %zu of %zu (%.6f s), though later ones are", n, furthest, M, (furthest < M ? e.stamps[furthest] : 0) * 1e-9);
                else
                    snprintf(b, sizeof b, "estimate %zu of %zu (t=%.6f) is none of those after message %zu of %zu; there: t=%.6f, element %zu is %.12g instead of %.12g", k, n, (double)(ns(got[k].t, epoch) - frac) * 1e-9, furthest, M,
                             (double)(ns(w.t, epoch) - frac) * 1e-9, bad, bad < 25 ? got[k].v[bad] : 0, bad < 25 ? w.v[bad] : 0);
                why = b;
                return false;
            }
            feasible = next;
            furthest = *next.rbegin();
        }
        if (M)
        {
            const int64_t from = n ? e.stamps[std::min(furthest, M - 1)] : e.stamps[0];
            if (n == 0 || (furthest + 1 < M && e.stamps[M - 1] - from > PERIOD + slack + gap(M - 1)))
            {
                cls = "estimate-missing";
                snprintf(b, sizeof b, "%zu estimates, none after message %zu of %zu (%.6f s, the last: %.6f s)", n, furthest, M, from * 1e-9, e.stamps[M - 1] * 1e-9);
                why = b;
                return false;
            }
        }
        // every observation of every bundle, once
        const std::string res = slurp(dir, "GPS_OBS_RESIDUAL.log");
        const size_t rs = 16 + 4 + 48;
        if (res.size() % rs || res.size() < e.residuals.size())
        {
            cls = "observations";
            snprintf(b, sizeof b, "residuals of %.1f observations, expected %zu", (double)res.size() / rs, e.residuals.size() / rs);
            why = b;
            return false;
        }
        const bool over = M && diff(at(epoch, frac + e.stamps[M - 1]), e.t0) > 44.8;
        if (res.size() > e.residuals.size() && !over)
        {
            cls = "observations";
            snprintf(b, sizeof b, "residuals of %zu observations, expected %zu", res.size() / rs, e.residuals.size() / rs);
            why = b;
            return false;
        }
        for (size_t k = 0; k < e.residuals.size() / rs; ++k)
        {
            int64_t ta[2], tb[2];
            int ia, ib;
            double va[6], vb[6];
            memcpy(ta, &res[k * rs], 16); memcpy(tb, &e.residuals[k * rs], 16);
            memcpy(&ia, &res[k * rs + 16], 4); memcpy(&ib, &e.residuals[k * rs + 16], 4);
            memcpy(va, &res[k * rs + 20], 48); memcpy(vb, &e.residuals[k * rs + 20], 48);
            bool ok = ia == ib && ta[0] == tb[0] && ta[1] == tb[1];
            // (below the horizon, where the atmosphere has a pole, rounding shows)
            const double low = vb[4] > 2.45e7 ? 1e11 : 1e8;
            for (int i = 0; i < 6; ++i) ok = ok && same(va[i], vb[i], i & 1 ? 1e4 : low);
            if (!ok)
            {
                cls = "observations";
                snprintf(b, sizeof b, "residual %zu is of satellite %d: %.9g, expected satellite %d: %.9g", k, ia, va[0], ib, vb[0]);
                why = b;
                return false;
            }
        }
        // and the result says what it was made from
        std::string amends;
        survives([&] {
            YAML::Node m = YAML::LoadFile(logs[0] + "/manifest.yml");
            if (m["amends"]) amends = m["amends"].as<std::string>();
        });
        std::error_code ec;
        if (amends.empty() || !fs::equivalent(amends, in_log, ec)) { cls = "amends"; why = "the log does not name the one it was made from: " + amends; return false; }
        run.probe("estimates", (int64_t)n);
        run.evbytes(est.data(), est.size());
        run.evbytes(res.data(), res.size());
        return true;
    }
};
DST_SCENARIO("C11", Post)

}  // namespace
