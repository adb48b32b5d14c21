// The RTK EKF estimator (C15-C17): measurements that arrive late, out of order, together, twice, too
// late or not at all, with satellites coming and going.
#include <algorithm>
#include <memory>
#include <new>

#include "common/math/dquat.h"
#include "common/logging/log_reader.h"
#include "core/ekf/rtk_ekf_estimator.h"
#include "ekfref.h"
#include "sky.h"
#include "utils/wgs84.h"

using namespace dst;
using namespace sky;
using namespace mc::ekf;
using mc::GnssID;
using mc::Out;
using mc::Vec1;
using mc::Vec2;
using mc::Vec6;
using mc::meas::GnssObservation;

namespace sky {
jmp_buf exit_jmp;
void onExitJump(int) { longjmp(exit_jmp, 1); }
}  // namespace sky

namespace {

constexpr int64_t NS = 1000000000ll;
enum { IMU, OBS, POINT, FIX };
const char* kindName[] = {"inertial", "observation", "position", "fix-and-hold"};

struct Ctx
{
    int64_t epoch = 0;
    int num_sd = 0;
    bool rich = false;
    double turn = 0.05, shake = 0;  // rotation rate, and noise of the inertial samples beyond the usual
    State x0;
    Covariance P0;
    Eigen::MatrixXd P;  // the same
    pointPosMeas::Covariance rp;
    obsMeas::Covariance ro;
    fixAndHoldMeas::Covariance rf;
    InputCovariance qu;
    ProcessCovariance q;
};

struct M
{
    int kind;
    int64_t t;
    uint64_t seed;
    int64_t order;  // of arrival
};

template <typename E>
void feedEph(RtkEkfEstimator& est, const Ctx& c, int sat, int64_t k)
{
    E e(sat);
    makeEph(e, mix(sat, k), c.epoch - UTCTime::GPS_UTC_OFFSET + k * 600);
    if constexpr (std::is_same<E, GloEph>::value) e.slot = 0;
    est.ephCb(e);
}

// what calls before left on the stack is no more predictable than the rest of the memory
__attribute__((noinline)) void poisonStack(int fill)
{
    char* p = static_cast<char*>(__builtin_alloca(400000));
    memset(p, fill, 400000);
    asm volatile("" : : "r"(p) : "memory");
}

void scatter(const Eigen::MatrixXd& P, int num_sd, Covariance& c)
{
    c.pose_pose = P.block<6, 6>(0, 0); c.pose_vel = P.block<6, 3>(0, 6); c.pose_accBias = P.block<6, 3>(0, 9); c.pose_gyroBias = P.block<6, 3>(0, 12);
    c.pose_gpsClk = P.block<6, 2>(0, 15); c.pose_galClk = P.block<6, 2>(0, 17); c.pose_gloClk = P.block<6, 2>(0, 19); c.pose_pB2g = P.block<6, 3>(0, 21); c.pose_TI2e = P.block<6, 6>(0, 24);
    c.vel_vel = P.block<3, 3>(6, 6); c.vel_accBias = P.block<3, 3>(6, 9); c.vel_gyroBias = P.block<3, 3>(6, 12);
    c.vel_gpsClk = P.block<3, 2>(6, 15); c.vel_galClk = P.block<3, 2>(6, 17); c.vel_gloClk = P.block<3, 2>(6, 19); c.vel_pB2g = P.block<3, 3>(6, 21); c.vel_TI2e = P.block<3, 6>(6, 24);
    c.accBias_accBias = P.block<3, 3>(9, 9); c.accBias_gyroBias = P.block<3, 3>(9, 12);
    c.accBias_gpsClk = P.block<3, 2>(9, 15); c.accBias_galClk = P.block<3, 2>(9, 17); c.accBias_gloClk = P.block<3, 2>(9, 19); c.accBias_pB2g = P.block<3, 3>(9, 21); c.accBias_TI2e = P.block<3, 6>(9, 24);
    c.gyroBias_gyroBias = P.block<3, 3>(12, 12);
    c.gyroBias_gpsClk = P.block<3, 2>(12, 15); c.gyroBias_galClk = P.block<3, 2>(12, 17); c.gyroBias_gloClk = P.block<3, 2>(12, 19); c.gyroBias_pB2g = P.block<3, 3>(12, 21); c.gyroBias_TI2e = P.block<3, 6>(12, 24);
    c.gpsClk_gpsClk = P.block<2, 2>(15, 15); c.gpsClk_galClk = P.block<2, 2>(15, 17); c.gpsClk_gloClk = P.block<2, 2>(15, 19); c.gpsClk_pB2g = P.block<2, 3>(15, 21); c.gpsClk_TI2e = P.block<2, 6>(15, 24);
    c.galClk_galClk = P.block<2, 2>(17, 17); c.galClk_gloClk = P.block<2, 2>(17, 19); c.galClk_pB2g = P.block<2, 3>(17, 21); c.galClk_TI2e = P.block<2, 6>(17, 24);
    c.gloClk_gloClk = P.block<2, 2>(19, 19); c.gloClk_pB2g = P.block<2, 3>(19, 21); c.gloClk_TI2e = P.block<2, 6>(19, 24);
    c.pB2g_pB2g = P.block<3, 3>(21, 21); c.pB2g_TI2e = P.block<3, 6>(21, 24);
    c.TI2e_TI2e = P.block<6, 6>(24, 24);
    if (!num_sd) return;
    c.pose_sd(num_sd) = P.block(0, 30, 6, num_sd); c.vel_sd(num_sd) = P.block(6, 30, 3, num_sd); c.accBias_sd(num_sd) = P.block(9, 30, 3, num_sd); c.gyroBias_sd(num_sd) = P.block(12, 30, 3, num_sd);
    c.gpsClk_sd(num_sd) = P.block(15, 30, 2, num_sd); c.galClk_sd(num_sd) = P.block(17, 30, 2, num_sd); c.gloClk_sd(num_sd) = P.block(19, 30, 2, num_sd);
    c.pB2g_sd(num_sd) = P.block(21, 30, 3, num_sd); c.TI2e_sd(num_sd) = P.block(24, 30, 6, num_sd); c.sd_sd(num_sd) = P.block(30, 30, num_sd, num_sd);
}

// rotation (active) and translation of a unit dual quaternion
void matrixOf(const mc::math::DQuat<double>& d, mc::Mat3& R, Vec3& t)
{
    const double w = d.real().w(), x = d.real().x(), y = d.real().y(), z = d.real().z();
    R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x),
        1 - 2 * (x * x + y * y);
    // 2 * dual * conj(real)
    const Vec3 r(x, y, z), e(d.dual().x(), d.dual().y(), d.dual().z());
    t = 2 * (w * e - d.dual().w() * r - e.cross(r));
}

struct EkfBase : Scenario
{
    double watchdogSec() const override { return 60; }

    static Ctx context(const Plan& p)
    {
        Ctx c;
        c.epoch = p.get("epoch");
        c.num_sd = (int)p.get("sd");
        Rng r(p.get("ctx"));
        c.x0.setIdentity();
        c.x0.num_sd = c.num_sd;
        for (int k = 0; k < c.num_sd; ++k) c.x0.sd[k](0) = r.uniform(-20, 20);
        const Vec3 lla(r.uniform(-1.2, 1.2), r.uniform(-3, 3), r.uniform(0, 2000));
        c.x0.T_I2e = mc::utils::WGS84::dq_ecef2ned(mc::utils::WGS84::lla2ecef(lla)).inverse();
        c.x0.p_b2g << r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1);
        c.x0.vel << r.uniform(-5, 5), r.uniform(-5, 5), r.uniform(-1, 1);
        c.P0.setIdentity();
        auto tame = [](auto& b, double v) { b.setZero(); b.diagonal().setConstant(v); };
        tame(c.P0.pose_pose, 1.0); c.P0.pose_pose.topLeftCorner<3, 3>() *= 1e-2;
        tame(c.P0.vel_vel, 0.1); tame(c.P0.accBias_accBias, 1e-2); tame(c.P0.gyroBias_gyroBias, 1e-3);
        tame(c.P0.pB2g_pB2g, 1e-2); tame(c.P0.TI2e_TI2e, r.chance(0.5) ? 0.0 : 1e-14);
        c.rp.head<3>().setConstant(r.pick(std::vector<double>{0.01, 1.0, 25.0}));
        c.rp.tail<3>().setConstant(0.04);
        c.ro << 4.0, 0.25;
        c.rf.setConstant(0.01);
        c.qu.accel.setConstant(1e-3);
        c.qu.gyro.setConstant(1e-5);
        c.q.setZero();
        c.q.pose.setConstant(1e-8); c.q.vel.setConstant(1e-6); c.q.accBias.setConstant(1e-9); c.q.gyroBias.setConstant(1e-10);
        c.q.gpsClk.setConstant(1e-3); c.q.galClk.setConstant(1e-3); c.q.gloClk.setConstant(1e-3);
        c.q.sd.setConstant(1e-6);
        if (p.get("rich"))
        {
            c.rich = true;
            c.turn = r.uniform(0, 1.5);
            c.shake = r.uniform(0, 0.3);
            if (p.get("calm")) c.turn *= 0.3, c.shake *= 0.1;
            auto v3 = [&](double s) { return Vec3(r.uniform(-s, s), r.uniform(-s, s), r.uniform(-s, s)); };
            Vec6 d;
            d << v3(1.5), v3(100);
            c.x0.pose = mc::math::DQuat<double>::exp(d);
            c.x0.acc_bias = v3(0.2);
            c.x0.gyro_bias = v3(0.05);
            c.x0.p_b2g = v3(3);
            for (Vec2* k : {&c.x0.gps_clk, &c.x0.gal_clk, &c.x0.glo_clk}) *k << r.uniform(-500, 500), r.uniform(-50, 50);
            // sizes of the uncertainties, and correlations
            const int n = 30 + c.num_sd;
            Eigen::VectorXd s(n);
            for (int k = 0; k < n; ++k)
                s(k) = k < 3 ? 0.1 : k < 6 ? 2 : k < 9 ? 0.5 : k < 12 ? 0.1 : k < 15 ? 0.02 : k < 21 ? (k % 2 ? 30 : 3) : k < 24 ? 0.2 : k < 27 ? 1e-7 : k < 30 ? 0.3 : 1;
            for (int k = 0; k < n; ++k) s(k) *= std::exp(r.uniform(-1.5, 1));
            if (r.chance(0.3)) s.segment<6>(24).setZero();
            Eigen::MatrixXd L = Eigen::MatrixXd::Identity(n, n);
            if (r.chance(0.7))
                for (int i = 0; i < n; ++i)
                    for (int j = 0; j < i; ++j) L(i, j) = r.gauss() * 0.5 / std::sqrt(n);
            c.P = s.asDiagonal() * L * L.transpose() * s.asDiagonal();
            scatter(c.P, c.num_sd, c.P0);
            auto some = [&](auto& b, double v) { for (int k = 0; k < b.size(); ++k) b(k) = r.chance(0.2) ? 0 : v * std::exp(r.uniform(-3, 1)); };
            some(c.q.pose, 1e-4); some(c.q.vel, 1e-4); some(c.q.accBias, 1e-6); some(c.q.gyroBias, 1e-8); some(c.q.gpsClk, 1); some(c.q.galClk, 1); some(c.q.gloClk, 1);
            some(c.q.pB2g, 1e-5); some(c.q.sd, 1e-3);
            if (r.chance(0.3)) some(c.q.TI2e, 1e-15);
            for (int k = 0; k < 3; ++k) c.qu.accel(k) = std::exp(r.uniform(-8, -2)), c.qu.gyro(k) = std::exp(r.uniform(-12, -5));
            for (int k = 0; k < 6; ++k) c.rp(k) *= std::exp(r.uniform(-1, 1));
            c.rf *= std::exp(r.uniform(-2, 2));
        }
        return c;
    }

    // a fresh estimator in memory that held something else before
    struct Holder
    {
        void* mem;
        RtkEkfEstimator* e;
        Holder(const Ctx& c, int fill, mc::logging::Logger* log = nullptr)
        {
            mem = aligned_alloc(64, (sizeof(RtkEkfEstimator) + 63) / 64 * 64);
            memset(mem, fill, sizeof(RtkEkfEstimator));
            e = new (mem) RtkEkfEstimator;
            e->init(at(c.epoch, 0), c.x0, c.P0, c.rp, c.ro, c.rf, c.qu, c.q, log);
        }
        ~Holder() { e->~RtkEkfEstimator(); free(mem); }
    };

    // measurement values follow from the measurement's seed alone
    // attitude of the vehicle the measurements are of
    static mc::Mat3 rotationAt(const Ctx& c, double ts)
    {
        mc::Mat3 R;
        Vec3 t;
        matrixOf(c.x0.pose, R, t);
        const double a = c.rich ? c.turn * (1 - std::cos(ts)) : 0;
        mc::Mat3 Z;
        Z << std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0, 0, 0, 1;
        return R * Z;
    }
    static ImuMeas imuOf(const Ctx& c, const M& m)
    {
        Rng r(m.seed);
        const double ts = m.t * 1e-9;
        ImuMeas z;
        z.z.accel << r.gauss() * 0.3, r.gauss() * 0.3, -9.80665 + r.gauss() * 0.3;
        z.z.gyro << r.gauss() * 0.02, r.gauss() * 0.02, c.turn * std::sin(ts) + r.gauss() * 0.02;
        if (c.rich)
        {
            z.z.accel = c.x0.acc_bias - rotationAt(c, ts).transpose() * Vec3(0, 0, 9.80665);
            z.z.gyro = c.x0.gyro_bias + Vec3(0, 0, c.turn * std::sin(ts));
            for (int k = 0; k < 3; ++k) z.z.gyro(k) += r.gauss() * c.shake, z.z.accel(k) += r.gauss() * c.shake;
        }
        return z;
    }
    static pointPosMeas pointOf(const Ctx& c, const M& m)
    {
        Rng r(m.seed);
        pointPosMeas z;
        const mc::Mat3 R = rotationAt(c, m.t * 1e-9);
        const Vec3 v = rotationAt(c, 0) * c.x0.vel, p = c.x0.pose.translation() + R * c.x0.p_b2g + v * (m.t * 1e-9);
        z.z.head<3>() = c.x0.T_I2e.transformp(p);
        z.z.tail<3>() = c.x0.T_I2e.rotation().rotp(v);
        for (int k = 0; k < 6; ++k) z.z(k) += r.gauss() * (c.rich ? std::sqrt(c.rp(k)) : k < 3 ? 1.0 : 0.1);
        if (r.chance(0.05)) z.z.head<3>() += Vec3(r.gauss(), r.gauss(), r.gauss()) * (c.rich ? 10 * std::sqrt(c.rp(0)) : 30);  // outlier
        return z;
    }
    static fixAndHoldMeas fixOf(const Ctx& c, const M& m)
    {
        Rng r(m.seed);
        fixAndHoldMeas z;
        for (int k = 0; k < c.num_sd; ++k) z.z.push_back(Vec1::Constant(std::round(c.x0.sd[k](0)) + r.gauss() * 0.05));
        return z;
    }
    static mc::Error feed(RtkEkfEstimator& est, const Ctx& c, const M& m, const std::vector<std::pair<int, int>>* sats = nullptr)
    {
        const UTCTime t = at(c.epoch, m.t);
        if (m.kind == IMU) return est.addMeasurement(t, imuOf(c, m));
        if (m.kind == POINT) return est.addMeasurement(t, pointOf(c, m));
        if (m.kind == FIX) return est.addMeasurement(t, fixOf(c, m));
        return est.addMeasurement(t, obsOf(c, m, sats));
    }
    static std::vector<GnssObservation> obsOf(const Ctx& c, const M& m, const std::vector<std::pair<int, int>>* sats)
    {
        Rng r(m.seed);
        const UTCTime t = at(c.epoch, m.t);
        std::vector<GnssObservation> z;
        for (auto& s : *sats)
        {
            GnssObservation o;
            o.t = t;
            o.gnss_id = (uint8_t)s.first;
            o.sat_num = (uint8_t)s.second;
            o.freq = 1.57542e9;
            o.pseudorange = 2.2e7 + r.gauss() * 1e5;
            o.doppler = r.gauss() * 500;
            o.carrier_phase = o.pseudorange / 0.19;
            z.push_back(o);
        }
        return z;
    }

    struct Dump
    {
        UTCTime t;
        Eigen::MatrixXd P;
        std::vector<double> x;
    };
    static Dump dump(const RtkEkfEstimator& e, int num_sd)
    {
        Dump d;
        d.t = e.t();
        d.P = e.cov().dense(num_sd);
        const State& s = e.x();
        auto put = [&](const auto& v) { for (int k = 0; k < v.size(); ++k) d.x.push_back(v(k)); };
        put(s.pose.real().arr_); put(s.pose.dual().arr_);
        put(s.vel); put(s.acc_bias); put(s.gyro_bias); put(s.gps_clk); put(s.gal_clk); put(s.glo_clk); put(s.p_b2g);
        put(s.T_I2e.real().arr_); put(s.T_I2e.dual().arr_);
        for (int k = 0; k < num_sd; ++k) d.x.push_back(s.sd[k](0));
        return d;
    }
    static std::string differ(const Dump& a, const Dump& b, double tol)
    {
        char buf[160];
        if (std::fabs(diff(a.t, b.t)) > 5e-9) { snprintf(buf, sizeof buf, "time differs by %.9f s", diff(a.t, b.t)); return buf; }
        for (size_t k = 0; k < a.x.size(); ++k)
            if (!(std::fabs(a.x[k] - b.x[k]) <= tol * (1 + std::fabs(a.x[k])))) { snprintf(buf, sizeof buf, "component %zu of the state is %.9g instead of %.9g", k, a.x[k], b.x[k]); return buf; }
        const double scale = b.P.cwiseAbs().maxCoeff();
        for (int i = 0; i < a.P.rows(); ++i)
            for (int j = i; j < a.P.cols(); ++j)
                if (!(std::fabs(a.P(i, j) - b.P(i, j)) <= tol * (1e-12 * scale + std::sqrt(std::fabs(b.P(i, i) * b.P(j, j))))))
                { snprintf(buf, sizeof buf, "covariance %d,%d is %.9g instead of %.9g", i, j, a.P(i, j), b.P(i, j)); return buf; }
        return "";
    }

    // sizes: how many of each constellation's satellites were announced, in order (manager holds the last 29)
    static constexpr int GID[3] = {GnssID::GPS, GnssID::Galileo, GnssID::Glonass};

    // the inertial samples of a long history stay, or it would become one with gaps of many seconds
    bool keep(const Op& o) const override { return o.name == "m" && o.i(4); }
    Plan makePlan(Rng& rng, bool thorough, double p_reject, bool rough, double p_long = 0)
    {
        Plan p;
        // minutes of a slow sensor: what an update leaves behind must not build up
        const bool lasting = rng.chance(p_long);
        p.set("epoch", rng.range(2100, 3000) * 604800ll + rng.range(0, 604799) + UTCTime::GPS_UTC_OFFSET);
        p.set("ctx", (int64_t)(rng.u64() >> 8));
        p.set("sd", rng.chance(0.5) ? 0 : rng.chance(0.2) ? 30 : rng.range(1, 8));
        p.set("fill", rng.pick(std::vector<int64_t>{0, 0xff, 0x5a, 0x7f}));
        p.set("sats", rng.range(1, 8));
        if (lasting) p.set("rich", 1), p.set("calm", 1);  // what is measured has to agree with a motion then
        const int64_t dt = lasting ? rng.pick(std::vector<int64_t>{50000000, 100000000, 200000000}) : rng.pick(std::vector<int64_t>{4000000, 10000000, 12500000, 20000000, 50000000, 100000000});
        const double dur = lasting ? dt * 1e-9 * rng.uniform(300, thorough ? 1500 : 700) : rng.uniform(0.3, (thorough ? 6.0 : 3.0)) * (dt < 10000000 ? 0.6 : 1);
        struct Arr { int64_t arrival; int kind; int64_t t; uint64_t seed; int kindOfTrouble; };
        std::vector<Arr> v;
        const double p_late = rng.uniform(0, 0.5), p_imu_late = rng.chance(0.4) ? rng.uniform(0, 0.2) : 0, p_lost = rng.chance(0.3) ? 0.1 : 0;
        std::vector<int64_t> times;
        int64_t gap_until = 0;
        for (int64_t t = dt; t < dur * 1e9; t += dt)
        {
            int64_t tt = t;
            if (rng.chance(0.1)) tt += rng.range(-200000, 200000);
            if (rng.chance(0.01) && rough) gap_until = t + rng.range(200000000, lasting ? 1000000000ll : 2500000000ll);
            if (t < gap_until) continue;
            times.push_back(tt);
            if (rng.chance(p_lost)) continue;
            int64_t lat = rng.range(0, 2000000);
            if (rng.chance(p_imu_late)) lat = rng.range(0, 900000000);
            v.push_back({tt + lat, IMU, tt, rng.u64() >> 8, 0});
            for (int extra = 0; extra < 3; ++extra)
            {
                if (!rng.chance(dt / 1e9 * (lasting ? (extra ? 0.5 : 10.0) : extra ? 4.0 : 10.0))) continue;
                const int kind = extra == 0 ? POINT : extra == 1 ? FIX : OBS;
                int64_t mt = tt - rng.range(0, dt);
                const int how = (int)rng.below(8);
                if (how < 3) mt = rng.pick(times);                                        // on top of an inertial sample
                else if (how == 3) mt = rng.pick(times) + rng.range(-2, 2);                // ... nearly
                else if (how == 4) mt = rng.pick(times) + rng.range(-60000, 60000);         // within the quantisation
                if (mt < tt - 1200000000) mt = tt;
                if (mt < 1000000) mt = 1000000;
                int64_t l = rng.range(0, 1000000);
                if (rng.chance(p_late)) l = rng.range(0, 950000000);
                if (rng.chance(0.03)) l = rng.range(900000000, 1600000000);               // around and beyond the limit
                v.push_back({std::max(mt + l, mt), kind, mt, rng.u64() >> 8, 0});
                if (rng.chance(0.05)) v.push_back({mt + l + rng.range(0, 100000000), kind, mt, rng.u64() >> 8, 0});
                if (rng.chance(0.1)) v.push_back({mt + l + rng.range(-1000000, 1000000), rng.pick(std::vector<int>{POINT, FIX, OBS}), mt, rng.u64() >> 8, 0});
            }
            if (rng.chance(p_reject)) v.push_back({tt, OBS, tt - rng.range(0, 500000000), rng.u64() >> 8, 1 + (int)rng.below(4)});
            if (rng.chance(p_reject)) v.push_back({tt, (int)rng.below(4), tt - rng.range(1000000000, 3000000000ll), rng.u64() >> 8, 9});
        }
        std::stable_sort(v.begin(), v.end(), [](const Arr& a, const Arr& b) { return a.arrival < b.arrival; });
        int n = 0;
        const int every = (int)rng.range(8, 60) * (lasting ? 20 : 1);
        for (auto& a : v)
        {
            p.add("m", {a.kind, a.t, (int64_t)a.seed, a.kindOfTrouble, lasting && a.kind == IMU});
            if (rng.chance(0.02)) p.add("eph", {(int64_t)rng.below(3), (int64_t)rng.range(1, 8), rng.range(-2, 2)});
            if (p_reject > 0 && rng.chance(0.01)) p.add("newsats", {(int64_t)rng.below(3), (int64_t)rng.range(1, 40)});
            if (++n % every == 0) p.add("compare");
        }
        p.add("compare");
        return p;
    }

    struct World
    {
        const Ctx c;
        Run& run;
        std::unique_ptr<Holder> h;
        std::vector<M> accepted;
        int64_t newest = INT64_MIN;
        int64_t arrivals = 0;
        int late = 0, rejected = 0;
        std::vector<int> known[3];  // what the manager must know, oldest first
        std::set<int> ever[3];
        int next_new = 100;
        int fill;
        World(const Plan& p, Run& r) : c(context(p)), run(r), fill((int)p.get("fill")) { h.reset(new Holder(c, (int)p.get("fill"))); }

        void eph(int con, int sat, int64_t k)
        {
            if (con == 0) feedEph<GpsEph>(*h->e, c, sat, k);
            else if (con == 1) feedEph<GalEph>(*h->e, c, sat, k);
            else feedEph<GloEph>(*h->e, c, sat, k);
            ever[con].insert(sat);
            auto& v = known[con];
            if (std::find(v.begin(), v.end(), sat) == v.end())
            {
                if (v.size() == 29) { v.erase(v.begin()); run.fault("satellite-evicted"); }
                v.push_back(sat);
            }
        }
        // observation bundle of a measurement; trouble: 1 one unknown, 2 all unknown, 3 evicted
        std::vector<std::pair<int, int>> bundle(uint64_t seed, int trouble, bool* bad)
        {
            Rng r(mix(seed, 77));
            std::vector<std::pair<int, int>> out;
            *bad = false;
            const int n = trouble == 4 ? (int)r.range(31, 64) : r.chance(0.05) ? (int)r.range(20, 30) : (int)r.range(trouble ? 1 : 0, 6);
            if (trouble == 4) { *bad = true; run.fault("too-many-observations"); }
            for (int k = 0; k < n; ++k)
            {
                const int con = (int)r.below(3);
                if (known[con].empty()) continue;
                out.push_back({GID[con], r.pick(known[con])});
            }
            if (trouble == 1 || trouble == 2)
            {
                if (trouble == 2) out.clear();
                const int con = (int)r.below(4);
                const std::pair<int, int> x = con == 3 ? std::make_pair((int)GnssID::Beidou, (int)r.range(1, 30)) : std::make_pair(GID[con], (int)r.range(60, 99));
                out.insert(out.begin() + r.below(out.size() + 1), x);
                *bad = true;
            }
            if (trouble == 3)
            {
                for (int con = 0; con < 3 && !*bad; ++con)
                    for (int s : ever[con])
                        if (std::find(known[con].begin(), known[con].end(), s) == known[con].end())
                        {
                            out.push_back({GID[con], s});
                            *bad = true;
                            run.probe("observation-of-evicted-satellite");
                            break;
                        }
            }
            return out;
        }
        // must this time be handled / refused?
        bool mustAccept(int64_t t) const
        {
            // a measurement of the last second, unless there are more states in that second than are kept
            if (t >= newest) return true;
            if (t < newest - 999900000) return false;
            int recent = 0;
            for (auto& m : accepted) recent += m.t >= newest - 1000000000;
            return recent < 90;
        }
        bool mustRefuse(int64_t t) const
        {
            // older than any state kept: the last one a second or more before the newest measurement
            int64_t keep = 0;
            for (auto& m : accepted)
                if (m.t <= newest - 1000000000) keep = std::max(keep, m.t);
            return newest > INT64_MIN && t < keep - 100000;
        }

        void measurement(const Op& o)
        {
            M m{(int)o.i(0), o.i(1), o.u(2), arrivals++};
            if (m.t < 1000000) return;
            if (m.kind == FIX && c.num_sd == 0) m.kind = POINT;
            bool bad = false;
            std::vector<std::pair<int, int>> sats;
            if (m.kind == OBS) sats = bundle(m.seed, (int)o.i(3), &bad);
            const bool was_late = newest > m.t;
            const Dump before = dump(*h->e, c.num_sd);
            const size_t n_states = h->e->states_.size(), n_meas = h->e->measurements_.size();
            bool ok = false;
            poisonStack(fill);
            const bool alive = survives([&] { ok = feed(*h->e, c, m, &sats).ok(); });
            run.ops();
            run.ev("m %d %lld %d %d", m.kind, (long long)m.t, ok, alive);
            if (!alive)
                run.fail("process-exit", "%s measurement at %.9f s (newest %.9f s) ends the process", kindName[m.kind], m.t * 1e-9, newest * 1e-9);
            if (was_late) run.fault("late");
            if (m.t == newest) run.fault("same-time");
            if (!ok)
            {
                ++rejected;
                run.fault(bad ? "unknown-satellite" : "too-late");
                if (!bad && mustAccept(m.t)) run.fail("refused", "%s measurement %.6f s late is refused", kindName[m.kind], (newest - m.t) * 1e-9);
                const std::string d = differ(dump(*h->e, c.num_sd), before, 0);
                if (!d.empty() || n_states != h->e->states_.size() || n_meas != h->e->measurements_.size())
                    run.fail("rejected-leaves-trace", "a refused %s measurement changes the estimator: %s (%zu -> %zu states, %zu -> %zu measurements)", kindName[m.kind], d.c_str(), n_states, h->e->states_.size(), n_meas, h->e->measurements_.size());
                return;
            }
            if (bad) run.fail("unknown-satellite-accepted", "an observation of a satellite without ephemeris, or more than 30 at once, is accepted");
            if (mustRefuse(m.t)) run.fail("stale-accepted", "%s measurement %.6f s older than the newest is accepted", kindName[m.kind], (newest - m.t) * 1e-9);
            if (was_late) ++late;
            accepted.push_back(m);
            obs[m.order] = sats;
            newest = std::max(newest, m.t);
            run.state(mix(mix(m.kind, was_late), mix(std::min<int64_t>(10, (newest - m.t) / 100000000), h->e->states_.size() / 8)));
        }
        std::map<int64_t, std::vector<std::pair<int, int>>> obs;

        // A fresh estimator that gets everything accepted so far in time order ends in the same place.
        void compare(const char* cls)
        {
            if (accepted.empty()) return;
            std::vector<M> v = accepted;
            std::stable_sort(v.begin(), v.end(), [](const M& a, const M& b) { return a.t != b.t ? a.t < b.t : a.kind != b.kind ? a.kind < b.kind : a.order < b.order; });
            Holder ref(c, 0);
            for (int con = 0; con < 3; ++con)
                for (int s : ever[con])
                {
                    if (con == 0) feedEph<GpsEph>(*ref.e, c, s, 0);
                    else if (con == 1) feedEph<GalEph>(*ref.e, c, s, 0);
                    else feedEph<GloEph>(*ref.e, c, s, 0);
                }
            // (observation updates are switched off in this filter; the satellites of the reference only have to exist)
            for (auto& m : v)
            {
                bool ok = false;
                std::vector<std::pair<int, int>> some;
                for (auto& s : obs[m.order])
                {
                    const mc::satellite::SatelliteBase* sp;
                    if (ref.e->sat_manager_.getSat(s.first, s.second, Out<const mc::satellite::SatelliteBase*>(sp)).ok()) some.push_back(s);
                }
                const bool alive = survives([&] { ok = feed(*ref.e, c, m, &some).ok(); });
                if (!alive) run.fail("process-exit", "%s measurement at %.9f s ends the process when everything arrives in order", kindName[m.kind], m.t * 1e-9);
                if (!ok) run.fail("refused", "%s measurement at %.9f s is refused when everything arrives in order", kindName[m.kind], m.t * 1e-9);
            }
            const std::string d = differ(dump(*h->e, c.num_sd), dump(*ref.e, c.num_sd), 1e-7);
            if (!d.empty()) run.fail(cls, "after %zu measurements, %d late: %s than after the same measurements in order", accepted.size(), late, d.c_str());
            run.ev("same %zu", accepted.size());
        }

        // The same history through an independent filter: state, covariance and logged residuals are the same.
        struct Expect
        {
            int kind;
            int64_t t;
            std::vector<double> v;  // residual, measurement, prediction; accuracy
            int sat;
            double tol;
        };
        void follow()
        {
            if (accepted.empty()) return;
            std::vector<M> v = accepted;
            std::stable_sort(v.begin(), v.end(), [](const M& a, const M& b) { return a.t != b.t ? a.t < b.t : a.kind != b.kind ? a.kind < b.kind : a.order < b.order; });
            ref::Filter f;
            const int n = 30 + c.num_sd;
            matrixOf(c.x0.pose, f.R, f.p);
            matrixOf(c.x0.T_I2e, f.Rf, f.pf);
            f.vel = c.x0.vel, f.ba = c.x0.acc_bias, f.bg = c.x0.gyro_bias, f.lever = c.x0.p_b2g;
            f.clk[0] = c.x0.gps_clk, f.clk[1] = c.x0.gal_clk, f.clk[2] = c.x0.glo_clk;
            f.sd.resize(c.num_sd);
            for (int k = 0; k < c.num_sd; ++k) f.sd(k) = c.x0.sd[k](0);
            f.P = c.P;
            f.q.resize(n);
            f.q << c.q.pose, c.q.vel, c.q.accBias, c.q.gyroBias, c.q.gpsClk, c.q.galClk, c.q.gloClk, c.q.pB2g, c.q.TI2e, Eigen::VectorXd::Constant(c.num_sd, c.q.sd(0));
            f.qa = c.qu.accel, f.qg = c.qu.gyro;

            // and through an estimator that gets it in order and writes down its residuals
            const std::string dir = run.scratch + "/res" + std::to_string(follows++);
            std::vector<Expect> want;
            {
                mc::logging::Logger log(at(c.epoch, 0), dir);
                Holder est(c, 0, &log);
                for (int con = 0; con < 3; ++con)
                    for (int s : ever[con])
                    {
                        if (con == 0) feedEph<GpsEph>(*est.e, c, s, 0);
                        else if (con == 1) feedEph<GalEph>(*est.e, c, s, 0);
                        else feedEph<GloEph>(*est.e, c, s, 0);
                    }
                int64_t ts = 0;
                for (auto& m : v)
                {
                    if (std::llabs(m.t - ts - 50000) <= 20) { run.probe("at-the-quantum"); log.close(at(c.epoch, newest)); return; }
                    ImuMeas z = ImuMeas::Zero();
                    if (m.kind == IMU) z = imuOf(c, m);
                    if (m.t - ts > 50000)
                    {
                        if (m.kind == IMU) f.predict((m.t - ts) * 1e-9, z.z.accel, z.z.gyro);
                        else f.predict((m.t - ts) * 1e-9, Vec3(f.acc), Vec3(f.gyro));
                        ts = m.t;
                    }
                    std::vector<std::pair<int, int>> some;
                    if (m.kind == OBS)
                        for (auto& s : obs[m.order])
                        {
                            const mc::satellite::SatelliteBase* sp;
                            if (est.e->sat_manager_.getSat(s.first, s.second, Out<const mc::satellite::SatelliteBase*>(sp)).ok()) some.push_back(s);
                        }
                    bool ok = false;
                    const bool alive = survives([&] { ok = feed(*est.e, c, m, &some).ok(); });
                    if (!alive) run.fail("process-exit", "%s measurement at %.9f s ends the process when everything arrives in order", kindName[m.kind], m.t * 1e-9);
                    if (!ok) run.fail("refused", "%s measurement at %.9f s is refused when everything arrives in order", kindName[m.kind], m.t * 1e-9);
                    if (m.kind == POINT)
                    {
                        const pointPosMeas zp = pointOf(c, m);
                        const Vec6 zh = f.antenna(), r = zp.z - zh;
                        f.point(zp.z, c.rp);
                        Expect x{POINT, m.t, {}, 0, 0};
                        for (int k = 0; k < 6; ++k) x.v.push_back(r(k));
                        for (int k = 0; k < 6; ++k) x.v.push_back(zp.z(k));
                        for (int k = 0; k < 6; ++k) x.v.push_back(zh(k));
                        x.tol = 1e-5 * (1 + r.norm()) + (1e-4 + 1e-5 * f.surprise) * f.spread.maxCoeff();
                        want.push_back(x);
                    }
                    else if (m.kind == FIX)
                    {
                        const fixAndHoldMeas zf = fixOf(c, m);
                        Eigen::VectorXd zz(c.num_sd);
                        Expect x{FIX, m.t, {}, 0, 0};
                        for (int k = 0; k < c.num_sd; ++k) zz(k) = zf.z[k](0);
                        const Eigen::VectorXd r = zz - f.sd;
                        for (int k = 0; k < c.num_sd; ++k) x.v.push_back(r(k));
                        for (int k = 0; k < c.num_sd; ++k) x.v.push_back(zz(k));
                        for (int k = 0; k < c.num_sd; ++k) x.v.push_back(f.sd(k));
                        f.fix(zz, c.rf(0));
                        x.tol = 1e-5 * (1 + r.norm()) + (1e-4 + 1e-5 * f.surprise) * f.spread.maxCoeff();
                        want.push_back(x);
                    }
                    else if (m.kind == OBS)
                    {
                        const Vec6 a = f.antenna();
                        const auto zs = obsOf(c, m, &some);
                        for (auto& o : zs)
                        {
                            const mc::satellite::SatelliteBase* sp;
                            if (!est.e->sat_manager_.getSat(o.gnss_id, o.sat_num, Out<const mc::satellite::SatelliteBase*>(sp)).ok()) continue;
                            mc::satellite::SatelliteCache sat;
                            sat.update(o.t, a.head<3>(), *sp);
                            const Eigen::Vector2d k = f.clk[o.gnss_id == GnssID::GPS ? 0 : o.gnss_id == GnssID::Galileo ? 1 : 2];
                            const double we = 7.2921151467e-5, cc = 299792458.0;
                            const Vec3 ap = a.head<3>(), av = a.tail<3>(), d = sat.state.pos - ap, e = d.normalized();
                            const double range = d.norm() + we / cc * (sat.state.pos(0) * ap(1) - sat.state.pos(1) * ap(0)) + sat.atm.ionospheric_delay_m + sat.atm.tropospheric_delay_m + cc * (k(0) * 1e-9 - sat.state.clk(0));
                            const double rate = e.dot(sat.state.vel - av) + we / cc * (sat.state.vel(1) * ap(0) + sat.state.pos(1) * av(0) - sat.state.vel(0) * ap(1) - sat.state.pos(0) * av(1)) + cc * (k(1) * 1e-9 - sat.state.clk(1));
                            Expect x{OBS, m.t, {o.pseudorange - range, o.doppler - rate, o.pseudorange, o.doppler, range, rate}, o.sat_num, 0};
                            // where the signal grazes the horizon the atmosphere is no smooth function of place
                            x.tol = std::fabs(sat.atm.tropospheric_delay_m) < 50 && std::fabs(sat.atm.ionospheric_delay_m) < 100 ? 0.01 : 1e300;
                            want.push_back(x);
                        }
                    }
                    if (f.surprise > 50) { run.probe("far-off"); log.close(at(c.epoch, newest + NS)); return; }
                    same(f, *est.e, m);
                }
                log.close(at(c.epoch, newest + NS));
                // what arrived late and out of order ends in the same place as well
                same(f, *h->e, v.back());
            }
            // the residuals
            std::vector<Expect> got;
            using namespace mc::logging;
            if (!want.empty())
            {
                LogReader r(theLog(dir));
                r.setCallback(GPS_OBS_RESIDUAL, [&](const UTCTime& t, int, StreamReader& s) {
                    int sat;
                    Vec2 a, b, d;
                    if (s.get(sat, a, b, d)) got.push_back({OBS, ns(t, c.epoch), {a(0), a(1), b(0), b(1), d(0), d(1)}, sat, 0});
                });
                r.setCallback(POINT_POS_RESIDUAL, [&](const UTCTime& t, int, StreamReader& s) {
                    Vec6 a, b, d;
                    if (!s.get(a, b, d)) return;
                    Expect x{POINT, ns(t, c.epoch), {}, 0, 0};
                    for (const Vec6* p : {&a, &b, &d})
                        for (int k = 0; k < 6; ++k) x.v.push_back((*p)(k));
                    got.push_back(x);
                });
                r.setCallback(FIX_AND_HOLD_RESIDUAL, [&](const UTCTime& t, int, StreamReader& s) {
                    mc::Vec<30> a, b, d;
                    if (!s.get(a, b, d)) return;
                    Expect x{FIX, ns(t, c.epoch), {}, 0, 0};
                    for (const mc::Vec<30>* p : {&a, &b, &d})
                        for (int k = 0; k < c.num_sd; ++k) x.v.push_back((*p)(k));
                    got.push_back(x);
                });
                r.read();
            }
            for (int kind : {OBS, POINT, FIX})
            {
                std::vector<const Expect*> a, b;
                for (auto& x : want) if (x.kind == kind) a.push_back(&x);
                for (auto& x : got) if (x.kind == kind) b.push_back(&x);
                if (a.size() != b.size()) run.fail("residual-count", "%zu residuals of %s measurements are logged instead of %zu", b.size(), kindName[kind], a.size());
                for (size_t k = 0; k < a.size(); ++k)
                {
                    if (b[k]->t != a[k]->t || a[k]->sat != b[k]->sat) run.fail("residual-label", "the residual of the %s measurement at %.9f s is logged as of %.9f s, satellite %d as %d", kindName[kind], a[k]->t * 1e-9, b[k]->t * 1e-9, a[k]->sat, b[k]->sat);
                    for (size_t j = 0; j < a[k]->v.size(); ++j)
                    {
                        run.probe("residual");
                        if (!(std::fabs(a[k]->v[j] - b[k]->v[j]) <= a[k]->tol))
                            run.fail("residual", "%s measurement at %.9f s: number %zu of its residual is logged as %.9g instead of %.9g", kindName[kind], a[k]->t * 1e-9, j, b[k]->v[j], a[k]->v[j]);
                    }
                }
            }
            run.ev("followed %zu", v.size());
        }
        int follows = 0;
        static std::string theLog(const std::string& dir)
        {
            namespace fs = std::experimental::filesystem;
            for (auto& e : fs::directory_iterator(dir)) return e.path().string();
            return dir;
        }

        // the estimator agrees with the reference
        void same(const ref::Filter& f, const RtkEkfEstimator& e, const M& m)
        {
            const int n = (int)f.P.rows();
            const State& s = e.x();
            mc::Mat3 R;
            Vec3 t;
            Eigen::VectorXd d = Eigen::VectorXd::Zero(n);
            matrixOf(s.pose, R, t);
            auto small = [](const mc::Mat3& D) { return Vec3(0.5 * Vec3(D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1))); };
            d.segment<3>(0) = small(f.R.transpose() * R);
            d.segment<3>(3) = f.R.transpose() * (t - f.p);
            d.segment<3>(6) = s.vel - f.vel;
            d.segment<3>(9) = s.acc_bias - f.ba;
            d.segment<3>(12) = s.gyro_bias - f.bg;
            d.segment<2>(15) = s.gps_clk - f.clk[0];
            d.segment<2>(17) = s.gal_clk - f.clk[1];
            d.segment<2>(19) = s.glo_clk - f.clk[2];
            d.segment<3>(21) = s.p_b2g - f.lever;
            matrixOf(s.T_I2e, R, t);
            d.segment<3>(24) = small(f.Rf.transpose() * R);
            d.segment<3>(27) = f.Rf.transpose() * (t - f.pf);
            for (int k = 0; k < c.num_sd; ++k) d(30 + k) = s.sd[k](0) - f.sd(k);
            static const char* part[] = {"rotation", "rotation", "rotation", "position", "position", "position", "velocity", "velocity", "velocity", "accelerometer bias", "accelerometer bias", "accelerometer bias", "gyroscope bias", "gyroscope bias", "gyroscope bias",
                                         "GPS clock", "GPS clock", "Galileo clock", "Galileo clock", "GLONASS clock", "GLONASS clock", "lever arm", "lever arm", "lever arm", "frame rotation", "frame rotation", "frame rotation", "frame place", "frame place", "frame place"};
            auto name = [&](int k) { return k < 30 ? part[k] : "ambiguities"; };
            static const double floor_[] = {1e-7, 1e-6, 1e-7, 1e-7, 1e-8, 1e-6, 1e-6, 1e-6, 1e-7, 1e-13, 1e-6};
            auto fl = [&](int k) { return floor_[k < 15 ? k / 3 : k < 21 ? 5 + (k - 15) / 2 : k < 24 ? 8 : k < 27 ? 9 : 10]; };
            const Eigen::MatrixXd P = e.cov().dense(c.num_sd);
            for (int k = 0; k < n; ++k)
            {
                // the generated filter loses digits where an update takes most of the uncertainty away
                const double tol = fl(k) * 3 + (6e-5 + 6e-6 * f.surprise) * std::sqrt(std::max(0.0, f.P(k, k)));
                if (!(std::fabs(d(k)) <= tol))
                    run.fail("state", "after the %s measurement at %.6f s the %s is off by %.3g (%.3g standard deviations)", kindName[m.kind], m.t * 1e-9, name(k), d(k), std::fabs(d(k)) / std::sqrt(f.P(k, k)));
            }
            for (int i = 0; i < n; ++i)
                for (int j = i; j < n; ++j)
                {
                    const double si = std::sqrt(f.P(i, i)) + fl(i), sj = std::sqrt(f.P(j, j)) + fl(j), tol = 6e-5 * si * sj;
                    if (!(std::fabs(P(i, j) - f.P(i, j)) <= tol))
                        run.fail("covariance", "after the %s measurement at %.6f s the covariance of %s and %s (%d, %d) is %.6g instead of %.6g", kindName[m.kind], m.t * 1e-9, name(i), name(j), i, j, P(i, j), f.P(i, j));
                }
        }

        void valid()
        {
            const RtkEkfEstimator& e = *h->e;
            const Dump d = dump(e, c.num_sd);
            for (double x : d.x)
                if (!std::isfinite(x)) run.fail("not-finite", "the state is not finite");
            if (!d.P.allFinite()) run.fail("not-finite", "the covariance is not finite");
            const State& s = e.x();
            auto unit = [&](const mc::math::DQuat<double>& q, const char* what) {
                const double n = q.real().arr_.norm(), o = q.real().arr_.dot(q.dual().arr_) / (1 + q.dual().arr_.norm());
                if (std::fabs(n - 1) > 1e-6 || std::fabs(o) > 1e-6) run.fail("not-a-rotation", "%s has norm %.9f, dual part off by %.3g", what, n, o);
            };
            unit(s.pose, "the pose");
            unit(s.T_I2e, "the frame");
            if (newest > INT64_MIN && std::fabs(diff(e.t(), at(c.epoch, newest))) > 5.2e-5)
                run.fail("time", "the estimate is %.9f s from the newest measurement", diff(e.t(), at(c.epoch, newest)));
            const UTCTime* last = nullptr;
            for (auto& sn : e.states_)
            {
                if (last && !(diff(sn.x.t, *last) > 0)) run.fail("history-order", "the state history is not in time order");
                last = &sn.x.t;
            }
            size_t old = 0;
            for (auto& sn : e.states_) old += newest > INT64_MIN && diff(at(c.epoch, newest), sn.x.t) > 1.0001;
            if (old > 1) run.fail("history-length", "%zu states of more than a second ago are kept", old);
            old = 0;
            for (auto& m : e.measurements_) old += diff(e.states_.front().x.t, m.t) > 1e-4;
            if (old) run.fail("history-length", "%zu measurements from before the history of states are kept", old);
            if ((int)s.num_sd != c.num_sd) run.fail("ambiguities", "%zu ambiguities instead of %d", s.num_sd, c.num_sd);
            // covariance: no negative variance, no impossible correlation
            const int n = (int)d.P.rows();
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < i; ++j)
                    if (!(std::fabs(d.P(i, j) - d.P(j, i)) <= 1e-6 * std::sqrt(std::fabs(d.P(i, i) * d.P(j, j)))))
                        run.fail("not-symmetric", "covariance %d,%d is %.9g, but %d,%d is %.9g", i, j, d.P(i, j), j, i, d.P(j, i));
            Eigen::MatrixXd C = d.P.selfadjointView<Eigen::Upper>();
            for (int k = 0; k < n; ++k)
                if (C(k, k) < 0) run.fail("negative-variance", "variance %d is %.3g", k, C(k, k));
            Eigen::VectorXd sd = C.diagonal().cwiseSqrt();
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                {
                    const double sc = sd(i) * sd(j);
                    if (sc > 0) C(i, j) /= sc;
                    else if (i == j) C(i, j) = 1;
                    else if (C(i, j) != 0) run.fail("impossible-correlation", "covariance %d,%d is %.3g without variance", i, j, C(i, j));
                }
            Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(C, Eigen::EigenvaluesOnly);
            const double lo = es.eigenvalues().minCoeff();
            if (lo < -1e-5) run.fail("indefinite", "smallest eigenvalue of the correlation matrix is %.3g", lo);
            // what a caller copies is what the filter holds
            const State copy = e.x();
            if (std::fabs(diff(copy.t, e.t())) > 0) run.fail("copy-loses-time", "a copy of the state is %.3f s from the state", diff(copy.t, e.t()));
        }
    };

    bool rejects = false, validity = false, following = false;
    const char* cls = "order-dependent";
    void execute(const Plan& plan, Run& run) override
    {
        World w(plan, run);
        for (int con = 0; con < 3; ++con)
            for (int s = 1; s <= plan.get("sats"); ++s) w.eph(con, s, 0);
        int64_t k = 0;
        for (auto& o : plan.ops)
        {
            if (o.name == "m") w.measurement(o);
            else if (o.name == "eph") w.eph((int)o.i(0), (int)o.i(1), o.i(2));
            else if (o.name == "newsats") { for (int j = 0; j < o.i(1); ++j) w.eph((int)o.i(0), 100 + w.next_new++ % 150, 0); }
            else if (o.name == "compare" && following) w.follow();
            else if (o.name == "compare" && !validity) w.compare(cls);
            if (validity && (++k % 7 == 0 || o.name == "compare")) w.valid();
        }
        if (validity) w.valid();
        if (w.newest > 0) run.simTime(w.newest * 1e-9);
        if (rejects ? w.rejected > 1 && w.late : w.late > 1) run.nontrivial();
    }
};
constexpr int EkfBase::GID[3];

struct Delayed : EkfBase
{
    Plan generate(Rng& rng, bool thorough) override { return makePlan(rng, thorough, 0, rng.chance(0.2)); }
};
DST_SCENARIO("C15", Delayed)

struct Rejected : EkfBase
{
    Rejected() { rejects = true; cls = "rejected-leaves-trace"; }
    Plan generate(Rng& rng, bool thorough) override { return makePlan(rng, thorough, 0.1, false); }
};
DST_SCENARIO("C16", Rejected)

struct Valid : EkfBase
{
    Valid() { validity = true; }
    Plan generate(Rng& rng, bool thorough) override { return makePlan(rng, thorough, 0.02, true, 0.04); }
};
DST_SCENARIO("C17", Valid)

struct Followed : EkfBase
{
    Followed() { following = true; }
    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p = makePlan(rng, thorough, rng.chance(0.3) ? 0.03 : 0, rng.chance(0.3), 0.03);
        p.set("rich", 1);
        // one comparison in the middle at most, and the last
        size_t n = 0;
        const size_t half = p.ops.size() / 2;
        std::vector<Op> ops;
        for (size_t k = 0; k < p.ops.size(); ++k)
            if (p.ops[k].name != "compare" || k + 1 == p.ops.size() || (k > half && !n++)) ops.push_back(p.ops[k]);
        p.ops = ops;
        return p;
    }
};
DST_SCENARIO("C28", Followed)

}  // namespace
