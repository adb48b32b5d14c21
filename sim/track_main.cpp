// The estimator follows a simulated drive (C25): the simulator's car and inertial sensor and a receiver
// with delayed, missing and noisy positions; the estimate is compared with the truth.
#include <algorithm>
#include <memory>

#include "common/math/dquat.h"
#include "core/ekf/rtk_ekf_estimator.h"
#include "sim/dynamics/car.h"
#include "sim/sensors/imu.h"
#include "sky.h"
#include "utils/wgs84.h"

using namespace dst;
using namespace sky;
using namespace mc::ekf;
using mc::Mat3;
using mc::Out;
using mc::Vec6;

namespace {
constexpr int64_t NS = 1000000000ll;

Mat3 activeRotation(const mc::math::DQuat<double>& d)
{
    const double w = d.real().w(), x = d.real().x(), y = d.real().y(), z = d.real().z();
    Mat3 R;
    R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x),
        1 - 2 * (x * x + y * y);
    return R;
}
Vec3 placeOf(const mc::math::DQuat<double>& d)
{
    const Vec3 r(d.real().x(), d.real().y(), d.real().z()), e(d.dual().x(), d.dual().y(), d.dual().z());
    return 2 * (d.real().w() * e - d.dual().w() * r - e.cross(r));
}
Vec3 placeOnEarth(const Vec3& lla)
{
    const double a = 6378137.0, b = 6356752.314245, e2 = 1 - b * b / (a * a), N = a / std::sqrt(1 - e2 * std::sin(lla(0)) * std::sin(lla(0)));
    return Vec3((N + lla(2)) * std::cos(lla(0)) * std::cos(lla(1)), (N + lla(2)) * std::cos(lla(0)) * std::sin(lla(1)), (N * (1 - e2) + lla(2)) * std::sin(lla(0)));
}
Mat3 nedAxes(const Vec3& lla)
{
    const double sp = std::sin(lla(0)), cp = std::cos(lla(0)), sl = std::sin(lla(1)), cl = std::cos(lla(1));
    Mat3 R;
    R << -sp * cl, -sl, -cp * cl, -sp * sl, cl, -cp * sl, cp, 0, -sp;
    return R;
}

struct Truth
{
    Mat3 R;
    Vec3 p, v, w, ba, bg;
};

struct Tracking : Scenario
{
    double watchdogSec() const override { return 120; }
    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p;
        p.set("epoch", rng.range(2100, 3000) * 604800ll + rng.range(0, 604799) + UTCTime::GPS_UTC_OFFSET);
        p.set("seed", (int64_t)(rng.u64() >> 8));
        p.set("dt_us", rng.pick(std::vector<int64_t>{4000, 5000, 8000, 10000}));
        const double dur = rng.uniform(12, rng.chance(thorough ? 0.3 : 0.1) ? 180 : 50);
        p.set("steps", (int64_t)(dur / (p.get("dt_us") * 1e-6)));
        p.set("every_ms", rng.pick(std::vector<int64_t>{100, 200, 200, 500, 1000}));  // between positions
        p.setd("pos_sd", std::exp(rng.uniform(std::log(0.01), std::log(5))));
        p.setd("vel_sd", std::exp(rng.uniform(std::log(0.05), std::log(0.3))));
        p.setd("acc_sd", std::exp(rng.uniform(std::log(0.005), std::log(0.3))));
        p.setd("gyro_sd", std::exp(rng.uniform(std::log(0.0005), std::log(0.03))));
        p.setd("acc_bias", rng.chance(0.3) ? 0 : rng.uniform(0.005, 0.1));
        p.setd("gyro_bias", rng.chance(0.3) ? 0 : rng.uniform(0.0005, 0.005));
        p.setd("lost", rng.chance(0.5) ? 0 : rng.uniform(0, 0.5));       // positions
        p.setd("late", rng.chance(0.3) ? 0 : rng.uniform(0, 1));         // positions that are late
        p.setd("imu_late", rng.chance(0.6) ? 0 : rng.uniform(0, 0.02)); // inertial samples that are
        // the drive
        p.setd("lat", rng.uniform(-1.4, 1.4));
        p.setd("lon", rng.uniform(-3.1, 3.1));
        p.setd("alt", rng.uniform(-50, 9000));
        p.setd("max_speed", rng.uniform(0.5, 20));
        p.setd("max_omega", rng.uniform(0.1, 1));
        for (int k = (int)rng.range(1, 5); k > 0; --k) p.add("wp").args = {tokd(rng.uniform(-60, 60)), tokd(rng.uniform(-60, 60)), tokd(0)};
        for (int k = (int)rng.range(0, 3); k > 0; --k)
            p.add("outage", {(int64_t)(rng.uniform(0.1, 1) * dur * 1e3), (int64_t)(rng.uniform(0.5, 8) * 1e3)});
        return p;
    }
    bool keep(const Op& o) const override { return o.name == "wp"; }

    void execute(const Plan& p, Run& run) override
    {
        const int64_t epoch = p.get("epoch"), dt = p.get("dt_us") * 1000, every = std::max<int64_t>(1, p.get("every_ms") * 1000000 / dt), n = p.get("steps");
        const double dts = dt * 1e-9;
        const uint64_t seed = p.get("seed");
        const double pos_sd = p.getd("pos_sd"), vel_sd = p.getd("vel_sd"), acc_sd = p.getd("acc_sd"), gyro_sd = p.getd("gyro_sd");
        // ---- the drive
        mc::sim::dynamics::SimCar::WaypointFollower::Options wo;
        wo.waypoints.clear();
        for (auto& o : p.ops)
            if (o.name == "wp") wo.waypoints.push_back(Vec3(o.d(0), o.d(1), o.d(2)));
        if (wo.waypoints.empty()) return;
        wo.max_speed = p.getd("max_speed");
        wo.max_omega = p.getd("max_omega");
        mc::sim::dynamics::SimCar::WaypointFollower follower(wo);
        mc::sim::dynamics::SimCar::Options co;
        co.t0 = at(epoch, 0);
        mc::sim::dynamics::SimCar car(co);
        mc::sim::sensors::ImuSim::Options io;
        io.accel_noise_stdev = io.accel_walk_stdev = io.gyro_noise_stdev = io.gyro_walk_stdev = 0;  // the noise is the harness's
        io.update_rate_hz = 1e6;
        mc::sim::sensors::ImuSim imu(io, co.t0);
        Rng r(mix(seed, 1));
        auto g3 = [&](Rng& q, double s) { return Vec3(q.gauss() * s, q.gauss() * s, q.gauss() * s); };
        const Vec3 ba = g3(r, p.getd("acc_bias")), bg = g3(r, p.getd("gyro_bias")), lever = g3(r, 0.5);
        std::vector<Truth> truth;
        struct Msg
        {
            int64_t arrival;
            bool imu;
            int64_t k;  // step
            ImuMeas u;
            pointPosMeas z;
        };
        std::vector<Msg> msgs;
        const Vec3 lla(p.getd("lat"), p.getd("lon"), p.getd("alt")), origin = placeOnEarth(lla);
        const Mat3 N = nedAxes(lla);
        // (no more steps than the estimator keeps states for)
        const int64_t worst = std::min<int64_t>(900000000, 80 * dt);
        auto state = [&] {
            Truth t;
            t.R = activeRotation(car.x.x);
            t.p = placeOf(car.x.x);
            t.v = car.x.dx.linear();
            t.w = car.x.dx.angular();
            t.ba = ba, t.bg = bg;
            return t;
        };
        truth.push_back(state());
        for (int64_t k = 1; k <= n; ++k)
        {
            const mc::Vec2 ctl = follower.follow(car.x.x);
            const Eigen::VectorXd u = car.controller(car.t(), ctl);
            car.step(at(epoch, k * dt), u);
            mc::meas::ImuSample s;
            if (!imu.sample(car.t(), car.x, Out(s))) run.fail("no-sample", "the inertial sensor gives no sample at step %lld", (long long)k);
            truth.push_back(state());
            Rng q(mix(seed, 1000 + k));
            Msg m;
            m.imu = true;
            m.k = k;
            m.u.z.accel = s.accel + ba + g3(q, acc_sd);
            m.u.z.gyro = s.gyro + bg + g3(q, gyro_sd);
            m.arrival = k * dt + (q.chance(p.getd("imu_late")) ? (int64_t)(q.uniform() * worst) : 0);
            if (m.arrival > k * dt) run.fault("late-inertial-sample");
            msgs.push_back(m);
            if (k % every) continue;
            bool out = q.chance(p.getd("lost"));
            if (out) run.fault("lost-position");
            for (auto& o : p.ops)
                if (o.name == "outage" && k * dt / 1000000 >= o.i(0) && k * dt / 1000000 < o.i(0) + o.i(1)) { out = true; run.fault("outage"); }
            if (out) continue;
            const Truth& t = truth.back();
            m.imu = false;
            m.z.z.head<3>() = origin + N * (t.p + t.R * lever) + g3(q, pos_sd);
            m.z.z.tail<3>() = N * (t.R * (t.w.cross(lever) + t.v)) + g3(q, vel_sd);
            m.arrival = k * dt + (q.chance(p.getd("late")) ? (int64_t)(q.uniform() * worst) : 0);
            if (m.arrival > k * dt) run.fault("late-position");
            msgs.push_back(m);
        }
        std::stable_sort(msgs.begin(), msgs.end(), [](const Msg& a, const Msg& b) { return a.arrival < b.arrival; });
        // ---- the estimator: starts somewhere near, knows how near
        State x0;
        x0.setIdentity();
        x0.num_sd = 0;
        Covariance P0;
        P0.setIdentity();
        auto tame = [](auto& b, double v) { b.setZero(); b.diagonal().setConstant(v * v); };
        const double tilt_sd = r.uniform(0.001, 0.05), place_sd = r.uniform(0.1, 5), speed_sd = r.uniform(0.05, 0.5), lever_sd = r.uniform(0.001, 0.1);
        const double ba_sd = std::max(0.005, p.getd("acc_bias")), bg_sd = std::max(0.0005, p.getd("gyro_bias"));
        tame(P0.pose_pose, place_sd);
        P0.pose_pose.topLeftCorner<3, 3>().diagonal().setConstant(tilt_sd * tilt_sd);
        tame(P0.vel_vel, speed_sd);
        tame(P0.accBias_accBias, ba_sd);
        tame(P0.gyroBias_gyroBias, bg_sd);
        tame(P0.pB2g_pB2g, lever_sd);
        P0.TI2e_TI2e.setZero();
        Vec6 d;
        d << g3(r, tilt_sd), g3(r, place_sd);
        x0.pose = mc::math::DQuat<double>(car.x.x * car.x.x.inverse()) * mc::math::DQuat<double>::exp(d);
        x0.vel = g3(r, speed_sd);
        x0.p_b2g = lever + g3(r, lever_sd);
        x0.T_I2e = mc::utils::WGS84::dq_ecef2ned(mc::utils::WGS84::lla2ecef(lla)).inverse();
        pointPosMeas::Covariance rp;
        rp.head<3>().setConstant(pos_sd * pos_sd);
        rp.tail<3>().setConstant(vel_sd * vel_sd);
        obsMeas::Covariance ro;
        ro << 4.0, 0.25;
        fixAndHoldMeas::Covariance rf;
        rf.setConstant(0.01);
        InputCovariance qu;
        qu.accel.setConstant(acc_sd * acc_sd);
        qu.gyro.setConstant(gyro_sd * gyro_sd);
        ProcessCovariance q;
        q.setZero();
        // what a step does not know: how the motion changes within it
        q.pose.head<3>().setConstant(1e-5 * 1e-5);
        q.pose.tail<3>().setConstant(1e-4 * 1e-4);
        q.vel.setConstant(2e-3 * 2e-3);
        q.accBias.setConstant(1e-5 * 1e-5);
        q.gyroBias.setConstant(1e-6 * 1e-6);
        auto est = std::make_unique<RtkEkfEstimator>();
        est->init(at(epoch, 0), x0, P0, rp, ro, rf, qu, q, nullptr);
        int64_t newest = 0, points = 0, last_point = 0, next_check = NS / 2, settled_since = -1;
        double bend_p = 0, bend_v = 0;
        int64_t bent = 0;
        bool gap = false;
        int64_t whole = 0;
        std::vector<char> here(n + 2, 0);
        for (auto& m : msgs)
        {
            if (!m.imu)
            {
                // what a linear filter cannot see: tilt times distance, in what this position is about to correct
                const Eigen::MatrixXd P = est->cov().dense(0).diagonal().cwiseMax(0);
                const double fade = std::exp(-(newest - bent) * 1e-9 / 3), tilt = std::sqrt(P.col(0).segment(0, 3).sum());
                bent = newest;
                bend_p = std::max(bend_p * fade, 6 * tilt * std::sqrt(P.col(0).segment(3, 3).sum()));
                bend_v = std::max(bend_v * fade, 6 * tilt * std::sqrt(P.col(0).segment(6, 3).sum()));
            }
            bool ok = false;
            const bool alive = survives([&] { ok = m.imu ? est->addMeasurement(at(epoch, m.k * dt), m.u).ok() : est->addMeasurement(at(epoch, m.k * dt), m.z).ok(); });
            run.ops();
            if (!alive) run.fail("process-exit", "the %s of %.3f s ends the process", m.imu ? "inertial sample" : "position", m.k * dts);
            if (!ok) { run.fault("refused"); continue; }
            if (m.imu) here[m.k] = 1;
            while (whole < n && here[whole + 1]) ++whole;
            if (!m.imu)
            {
                ++points;
                if (m.k * dt - last_point > NS * 3 / 2 + 2 * every * dt) settled_since = -1;
                if (settled_since < 0) settled_since = m.k * dt;
                last_point = std::max(last_point, m.k * dt);
            }
            if (m.k * dt > newest) newest = m.k * dt;
            else continue;
            if (!m.imu || newest < next_check) continue;
            if (whole < m.k && m.k - whole < 120) continue;  // (not while samples that are under way are made up for)
            next_check = newest + 300000000;
            if (newest - last_point > NS * 3 / 2 + 2 * every * dt) gap = true;
            if (!gap && whole >= m.k) check(run, *est, truth, m.k, dts, points, bend_p, bend_v);
            // measurements have come regularly for a while: the estimate is as good as they are
            const bool regular = settled_since >= 0 && newest - last_point < NS * 3 / 2 + 2 * every * dt;
            if (regular && last_point - settled_since > 8 * NS && points > 20)
            {
                const Vec3 e = placeOf(est->x().pose) - truth[m.k].p;
                // (and a wrong heading shows in how far it went since the last position: in slow drives it is hardly known)
                const Mat3 D = truth[m.k].R.transpose() * activeRotation(est->x().pose);
                const double off = std::acos(std::min(1.0, std::max(-1.0, (D.trace() - 1) / 2)));
                const double limit = 5 * pos_sd + 0.6 + 6 * lever_sd + 1.5 * off * (truth[m.k].p - truth[last_point / dt].p).norm();
                run.probe("accuracy-checked");
                if (!(e.norm() <= limit))
                    run.fail("astray", "%.3f s into the drive, with positions of %.3g m, the estimate is %.3f m from the truth", m.k * dts, pos_sd, e.norm());
                const Mat3 P = est->cov().dense(0).block(3, 3, 3, 3);
                if (!(std::sqrt(P.trace()) <= limit))
                    run.fail("unsure", "%.3f s into the drive, with positions of %.3g m, the estimate is believed good to %.3f m", m.k * dts, pos_sd, std::sqrt(P.trace()));
            }
            run.state(mix(regular, mix(std::min<int64_t>(20, points / 5), (int64_t)(std::log2(est->cov().dense(0)(3, 3)) * 2))));
        }
        if (points > 20) run.nontrivial();
        run.simTime(n * dts);
    }
    void check(Run& run, const RtkEkfEstimator& est, const std::vector<Truth>& truth, int64_t k, double dts, int64_t points, double bend_p, double bend_v)
    {
        const State& s = est.x();
        const Truth& t = truth[k];
        const Mat3 D = t.R.transpose() * activeRotation(s.pose);
        Eigen::VectorXd e(18);
        e << 0.5 * Vec3(D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1)), t.R.transpose() * (placeOf(s.pose) - t.p), s.vel - t.v, s.acc_bias - t.ba, s.gyro_bias - t.bg, Vec3::Zero();
        static const char* part[] = {"attitude", "position", "velocity", "accelerometer bias", "gyroscope bias"};
        static const double small[] = {2e-3, 0.05, 0.03, 0.01, 5e-4};
        const Eigen::MatrixXd P = est.cov().dense(0);
        for (int j = 0; j < 15; ++j)
        {
            const double sd = std::sqrt(std::max(0.0, P(j, j))), z = std::max(0.0, std::fabs(e(j)) - small[j / 3] - (j / 3 == 1 ? bend_p : j / 3 == 2 ? bend_v : 0)) / sd;
            if (!(z <= (k * dts < 60 ? 12 : 20)))
                run.fail("overconfident", "%.3f s into the drive, after %lld positions, the %s is off by %.3g, %.1f standard deviations", k * dts, (long long)points, part[j / 3], e(j), std::fabs(e(j)) / sd);
        }
        run.ev("t %lld e %.6g %.6g", (long long)k, e.segment<3>(3).norm(), P(3, 3));
        run.probe("checked");
    }
};
DST_SCENARIO("C25", Tracking)
}  // namespace
