// The sensor models of the estimator: preintegrated inertial measurements under any sampling and any
// history of cuts (C26), satellite observations of a simulated drive (C36).
#include "models/gnss_dynamics_model.h"
#include "models/imu_model.h"
#include "models/prange_model.h"
#include "models/relative_carrier_phase_model.h"
#include "simworld.h"

namespace {

using mc::Mat3;
using mc::Vec2;
using mc::Vec6;
using mc::Vec9;
using mc::math::DQuat;
using mc::models::ImuModel;
const Vec3 G(0, 0, 9.80665);
constexpr int64_t HALF = 50000;  // half the time quantum, ns

struct Pose
{
    Vec3 p = Vec3::Zero(), v = Vec3::Zero();  // v in the body frame
    Mat3 R = Mat3::Identity();                // body to reference
};

Mat3 expm(const Vec3& w)
{
    const double th = w.norm();
    Mat3 K;
    K << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
    if (th < 1e-12) return Mat3::Identity() + K;
    return Mat3::Identity() + std::sin(th) / th * K + (1 - std::cos(th)) / (th * th) * K * K;
}
double angle(const Mat3& a, const Mat3& b)
{
    const Mat3 D = a.transpose() * b;
    const Vec3 s(D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1));
    return std::atan2(0.5 * s.norm(), 0.5 * (D.trace() - 1));
}
DQuat<double> dq(const Pose& x)
{
    // quaternion of R, by its largest component
    const Mat3& R = x.R;
    double q[4] = {1 + R(0, 0) + R(1, 1) + R(2, 2), 1 + R(0, 0) - R(1, 1) - R(2, 2), 1 - R(0, 0) + R(1, 1) - R(2, 2), 1 - R(0, 0) - R(1, 1) + R(2, 2)};
    int b = 0;
    for (int k = 1; k < 4; ++k) if (q[k] > q[b]) b = k;
    const double r = std::sqrt(q[b]) / 2, s = 1 / (4 * r);
    double w, i, j, k;
    if (b == 0) { w = r; i = (R(2, 1) - R(1, 2)) * s; j = (R(0, 2) - R(2, 0)) * s; k = (R(1, 0) - R(0, 1)) * s; }
    else if (b == 1) { i = r; w = (R(2, 1) - R(1, 2)) * s; j = (R(0, 1) + R(1, 0)) * s; k = (R(0, 2) + R(2, 0)) * s; }
    else if (b == 2) { j = r; w = (R(0, 2) - R(2, 0)) * s; i = (R(0, 1) + R(1, 0)) * s; k = (R(1, 2) + R(2, 1)) * s; }
    else { k = r; w = (R(1, 0) - R(0, 1)) * s; i = (R(0, 2) + R(2, 0)) * s; j = (R(1, 2) + R(2, 1)) * s; }
    Eigen::Vector4d v(w, i, j, k);
    v.normalize();
    return DQuat<double>(mc::math::Quat<double>(v), x.p);
}
Pose poseOf(const DQuat<double>& T, const Vec3& v)
{
    Pose x;
    x.p = T.translation();
    x.R = rotOf(T.rotation());
    x.v = v;
    return x;
}

struct Sample
{
    int64_t t = 0;
    Vec3 a = Vec3::Zero(), w = Vec3::Zero();
};
Sample lerp(const Sample& x, const Sample& y, int64_t t)
{
    const double s = (double)(t - x.t) / (double)(y.t - x.t);
    return {t, x.a + s * (y.a - x.a), x.w + s * (y.w - x.w)};
}

struct Inertial : Scenario
{
    double watchdogSec() const override { return 30; }
    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p;
        p.set("epoch", rng.range(0, 2000000000));
        p.set("frac", rng.chance(0.3) ? 0 : rng.range(0, 999999999));
        p.set("seed", (int64_t)(rng.u64() >> 8));
        const double amax = rng.pick(std::vector<double>{1, 5, 20}), wmax = rng.pick(std::vector<double>{0.05, 0.5, 2});
        p.setd("biased", rng.chance(0.6) ? rng.uniform(0, 0.5) : 0);
        p.set("whole", rng.chance(0.5));
        std::vector<int64_t> ts;
        int64_t t = 0;
        Vec3 a, w, a0(rng.uniform(-amax, amax), rng.uniform(-amax, amax), rng.uniform(-amax, amax) - 9.8), w0(rng.uniform(-wmax, wmax), rng.uniform(-wmax, wmax), rng.uniform(-wmax, wmax));
        const bool rough = rng.chance(0.3);
        const double f1 = rng.uniform(0.1, 5), f2 = rng.uniform(0.1, 5);
        auto sample = [&]() {
            const double s = t * 1e-9;
            if (rough) for (int k = 0; k < 3; ++k) { a(k) = a0(k) + rng.uniform(-amax, amax) * 0.1; w(k) = w0(k) + rng.uniform(-wmax, wmax) * 0.1; }
            else for (int k = 0; k < 3; ++k) { a(k) = a0(k) + 0.5 * amax * std::sin(f1 * s + k); w(k) = w0(k) + 0.5 * wmax * std::sin(f2 * s + 2 * k); }
            Op& o = p.add("imu");
            o.args = {tok(t)};
            for (int k = 0; k < 3; ++k) o.args.push_back(tokd(a(k)));
            for (int k = 0; k < 3; ++k) o.args.push_back(tokd(w(k)));
            ts.push_back(t);
        };
        sample();
        const int n = (int)rng.range(2, thorough ? 300 : 120);
        const int64_t nominal = rng.pick(std::vector<int64_t>{1000000, 2500000, 4000000, 5000000, 10000000, 20000000});
        int64_t first = 0;  // begin of the last piece
        const double cuts = rng.uniform(0, 0.15);
        for (int k = 0; k < n; ++k)
        {
            int64_t d = nominal;
            if (rng.chance(0.3)) d += rng.range(-nominal / 3, nominal / 3);       // jitter
            if (rng.chance(0.03)) d = nominal * rng.range(2, 8);                    // samples lost
            if (rng.chance(0.03)) d = rng.range(100001, 300000);                    // two in quick succession
            t += std::max<int64_t>(d, 100001);
            sample();
            while (rng.chance(cuts))
            {
                int64_t c;
                const size_t i = rng.below(ts.size());
                if (rng.chance(0.3)) c = ts[i];
                else if (rng.chance(0.3)) c = ts[i] + rng.range(-130000, 130000);
                else c = rng.range(0, t);
                p.add("split", {c});
                if (rng.chance(0.3)) p.add("finish", {(int64_t)rng.below(1000)});
            }
            (void)first;
        }
        if (rng.chance(0.7)) p.add("finish", {(int64_t)rng.below(1000)});
        return p;
    }

    struct Piece
    {
        std::vector<Sample> s;
        std::unique_ptr<ImuModel> m;
        bool near = false;  // cut next to a sample
        bool done = false;
    };

    int64_t epoch = 0, frac = 0;
    Vec6 bias, R;
    mc::meas::ImuSample z(const Sample& s) const
    {
        mc::meas::ImuSample o;
        o.t = at(epoch, frac + s.t);
        o.accel = s.a + bias.head<3>();
        o.gyro = s.w + bias.tail<3>();
        return o;
    }
    std::unique_ptr<ImuModel> fresh(const std::vector<Sample>& s, const Vec6& b) const
    {
        std::unique_ptr<ImuModel> m(new ImuModel(z(s[0]), b, R));
        for (size_t k = 1; k < s.size(); ++k) m->integrate(z(s[k]));
        return m;
    }
    // truth: piecewise linear accelerations and rates, fine steps.  Also the error the model may make.
    struct Tol { double p = 1e-9, v = 1e-9, th = 1e-9; };
    static Pose truth(const std::vector<Sample>& s, Pose x, Tol* tol)
    {
        Vec3 vn = x.R * x.v;
        double T = 0, ev = 0, eth = 0, ep = 0;
        for (size_t k = 1; k < s.size(); ++k)
        {
            const double dt = (s[k].t - s[k - 1].t) * 1e-9;
            T += dt;
            const int N = 4 + (int)(dt / 0.001);
            const double h = dt / N;
            for (int j = 0; j < N; ++j)
            {
                const double f = (j + 0.5) / N;
                const Vec3 a = s[k - 1].a + f * (s[k].a - s[k - 1].a), w = s[k - 1].w + f * (s[k].w - s[k - 1].w);
                const Mat3 Rm = x.R * expm(0.5 * h * w);
                const Vec3 an = Rm * a + G;
                x.p += h * vn + 0.5 * h * h * an;
                vn += h * an;
                x.R = x.R * expm(h * w);
            }
            const double am = std::max(s[k].a.norm(), s[k - 1].a.norm()), wm = std::max(s[k].w.norm(), s[k - 1].w.norm());
            eth += wm * wm * dt * dt * 0.1 + (s[k].w - s[k - 1].w).norm() * dt * wm * dt;
            ev += wm * am * dt * dt + eth * am * dt + (s[k].a - s[k - 1].a).norm() * wm * dt * dt;
            ep += ev * dt + am * dt * dt;
        }
        x.v = x.R.transpose() * vn;
        tol->th += eth;
        tol->v += ev + eth * vn.norm();
        tol->p += ep;
        return x;
    }
    void same(Run& run, const char* what, const ImuModel& a, const ImuModel& b, double tol)
    {
        const double d = std::max({(a.state().alpha - b.state().alpha).norm(), (a.state().beta - b.state().beta).norm(), (a.state().gamma.arr_ - b.state().gamma.arr_).norm()});
        if (!(d <= tol * (1 + b.state().beta.norm()))) run.fail("piece-state", "%s: the piece differs from its own samples integrated afresh by %.3e", what, d);
        const double dc = (a.covariance() - b.covariance()).cwiseAbs().maxCoeff(), dj = (a.dStatedBias() - b.dStatedBias()).cwiseAbs().maxCoeff();
        const double mc_ = b.covariance().cwiseAbs().maxCoeff(), mj = b.dStatedBias().cwiseAbs().maxCoeff();
        if (!(dc <= 1e-12 + tol * 10 * mc_)) run.fail("piece-covariance", "%s: its covariance differs by %.3e of %.3e", what, dc, mc_);
        if (!(dj <= 1e-12 + tol * 10 * mj)) run.fail("piece-jacobian", "%s: its dependence on the biases differs by %.3e of %.3e", what, dj, mj);
        if (a.numUpdates() != b.numUpdates()) run.fail("piece-updates", "%s: %d updates, %d samples", what, a.numUpdates(), b.numUpdates());
    }
    void verify(Run& run, Piece& pc, Pose* x, bool strict_start)
    {
        ImuModel& m = *pc.m;
        const auto& s = pc.s;
        if (ns(m.t0(), epoch) - frac != s.front().t || ns(m.tf(), epoch) - frac != s.back().t)
            run.fail("interval", "a piece covers %lld to %lld ns, its samples %lld to %lld", (long long)(ns(m.t0(), epoch) - frac), (long long)(ns(m.tf(), epoch) - frac), (long long)s.front().t, (long long)s.back().t);
        same(run, "piece", m, *fresh(s, bias), pc.near ? 1e-5 : 1e-11);
        if (m.numUpdates() == 0) return;
        // the motion it stands for
        Tol tol;
        const Pose end = truth(s, *x, &tol);
        DQuat<double> T;
        Vec3 v;
        if (!m.computeEndState(dq(*x), x->v, mc::Out(T), mc::Out(v)).ok()) run.fail("end-state", "no end state after %d updates", m.numUpdates());
        const Pose got = poseOf(T, v);
        if (!(angle(end.R, got.R) <= 2 * tol.th)) run.fail("attitude", "the attitude at the end is off by %.3e rad (limit %.3e)", angle(end.R, got.R), 2 * tol.th);
        if (!((end.R * end.v - got.R * got.v).norm() <= 2 * tol.v)) run.fail("velocity", "the velocity at the end is off by %.6f m/s (limit %.6f)", (end.R * end.v - got.R * got.v).norm(), 2 * tol.v);
        if (!((end.p - got.p).norm() <= 2 * tol.p)) run.fail("position", "the position at the end is off by %.6f m (limit %.6f)", (end.p - got.p).norm(), 2 * tol.p);
        // residual of the very motion it predicts, at the biases it was integrated with: nothing
        const DQuat<double> S = dq(*x);
        const double* par[5] = {S.data(), T.data(), x->v.data(), v.data(), bias.data()};
        Vec9 res;
        res.setConstant(1e9);
        m.Evaluate(par, res.data(), nullptr);
        const double sc = 1 + x->p.norm() + v.norm() + T.translation().norm();
        if (!(res.norm() <= 1e-9 * sc)) run.fail("residual", "the residual of the predicted motion is %.3e (biases %.3f)", res.norm(), bias.norm());
        // of motions beside it: the difference
        Pose y = poseOf(T, v);
        const Vec3 dp(0.3, -0.2, 0.1), dv(-0.1, 0.4, 0.2), dr(0.01, -0.02, 0.015);
        {
            Pose q = y;
            q.p += dp;
            const DQuat<double> Q = dq(q);
            par[1] = Q.data();
            m.Evaluate(par, res.data(), nullptr);
            const Vec3 want = x->R.transpose() * dp;
            if (!((res.segment<3>(0) - want).norm() < 1e-8 * sc && res.segment<6>(3).norm() < 1e-8 * sc)) run.fail("residual-position", "a position error of %.3f m leaves a residual of %.6f, %.6f, %.6f", dp.norm(), res(0), res(1), res(2));
            q = y;
            q.v += dv;
            par[1] = T.data();
            par[3] = q.v.data();
            m.Evaluate(par, res.data(), nullptr);
            const Vec3 wantv = x->R.transpose() * (y.R * dv);
            if (!((res.segment<3>(3) - wantv).norm() < 1e-8 * sc && res.segment<3>(0).norm() < 1e-8 * sc && res.segment<3>(6).norm() < 1e-8 * sc))
                run.fail("residual-velocity", "a velocity error of %.3f m/s leaves a residual of %.6f, %.6f, %.6f", dv.norm(), res(3), res(4), res(5));
            q = y;
            q.R = y.R * expm(dr);
            DQuat<double> Q2 = dq(q);
            if (Q2.arr_.head<4>().dot(T.arr_.head<4>()) < 0) Q2.arr_ = -Q2.arr_;  // (of the two representations, the nearer)
            par[1] = Q2.data();
            par[3] = v.data();
            m.Evaluate(par, res.data(), nullptr);
            if (!((res.segment<3>(6) - dr).norm() < 1e-7)) run.fail("residual-attitude", "an attitude error of %.4f rad leaves a residual of %.6f, %.6f, %.6f", dr.norm(), res(6), res(7), res(8));
        }
        // other biases: as if integrated with them
        {
            Vec6 db;
            db << 0.01, -0.02, 0.015, 0.002, -0.001, 0.0015;
            const Vec6 b1 = bias + db;
            DQuat<double> T1;
            Vec3 v1;
            fresh(s, b1)->computeEndState(S, x->v, mc::Out(T1), mc::Out(v1));
            par[1] = T1.data();
            par[3] = v1.data();
            par[4] = b1.data();
            m.Evaluate(par, res.data(), nullptr);
            const double T_ = m.delta_t();
            double am = 0, wm = 0, dm = 0;
            for (size_t k = 0; k < s.size(); ++k) { am = std::max(am, s[k].a.norm()); wm = std::max(wm, s[k].w.norm()); if (k) dm = std::max(dm, (s[k].t - s[k - 1].t) * 1e-9); }
            // first order: what the change of biases does to each part; allowed: discretisation and second order
            const double da = db.head<3>().norm(), dw = db.tail<3>().norm();
            const double rel = 3 * (dm / T_) + 3 * wm * dm + 3 * dw * T_ + 0.02;
            const double fth = dw * T_, fv = (da + am * fth) * T_, fp = fv * T_;
            const double lth = 1e-9 * sc + rel * fth, lv = 1e-9 * sc + rel * fv + lth * v1.norm() * 2, lp = 1e-9 * sc + rel * fp;
            if (!(res.segment<3>(6).norm() <= lth && res.segment<3>(3).norm() <= lv && res.segment<3>(0).norm() <= lp))
                run.fail("bias-correction", "changed biases leave residuals of %.3e m, %.3e m/s, %.3e rad (limits %.3e, %.3e, %.3e; uncorrected %.1e, %.1e, %.1e)", res.segment<3>(0).norm(), res.segment<3>(3).norm(),
                         res.segment<3>(6).norm(), lp, lv, lth, fp, fv, fth);
        }
        // uncertainty
        const mc::Mat9 P = m.covariance();
        if (!((P - P.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * P.cwiseAbs().maxCoeff() + 1e-30)) run.fail("asymmetric", "the covariance is not symmetric");
        for (int k = 0; k < 9; ++k) if (!(P(k, k) >= 0)) run.fail("negative-variance", "variance %d is %.3e", k, P(k, k));
        double T_ = m.delta_t(), want = 0;
        for (size_t k = 1; k < s.size(); ++k) want += std::pow((s[k].t - s[k - 1].t) * 1e-9, 2);
        // each attitude component takes up the gyroscope noise of each interval
        const double tr = P.block<3, 3>(6, 6).trace(), tr_want = R.tail<3>().sum() * want;
        if (m.numUpdates() > 2 && R.tail<3>().maxCoeff() == R.tail<3>().minCoeff() && !(std::fabs(tr / tr_want - 1) < 0.01 + T_ * 0.05)) run.fail("attitude-variance", "attitude variance %.6e after gyroscope noise of %.6e", tr, tr_want);
        (void)strict_start;
        *x = got;
    }

    void execute(const Plan& plan, Run& run) override
    {
        epoch = plan.get("epoch");
        frac = plan.get("frac");
        Rng r((uint64_t)plan.get("seed"));
        const double bm = plan.getd("biased");
        for (int k = 0; k < 6; ++k) bias(k) = (k < 3 ? 1.0 : 0.1) * r.uniform(-bm, bm);
        const bool iso = r.chance(0.5);
        for (int k = 0; k < 6; ++k) R(k) = std::pow(10, r.uniform(-6, -2));
        if (iso) { R(1) = R(2) = R(0); R(4) = R(5) = R(3); }
        Pose start;
        start.p << r.uniform(-100, 100), r.uniform(-100, 100), r.uniform(-100, 100);
        start.v << r.uniform(-20, 20), r.uniform(-20, 20), r.uniform(-20, 20);
        start.R = expm(Vec3(r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(-2, 2)));
        std::vector<Piece> ps;
        std::vector<Sample> all;
        int cuts = 0;
        bool open = true;
        for (auto& o : plan.ops)
        {
            run.ops();
            if (o.name == "imu")
            {
                Sample s{o.i(0), Vec3(o.d(1), o.d(2), o.d(3)), Vec3(o.d(4), o.d(5), o.d(6))};
                if (!all.empty() && s.t < all.back().t + 100000) continue;
                all.push_back(s);
                if (ps.empty())
                {
                    ps.emplace_back();
                    ps.back().m.reset(new ImuModel(z(s), bias, R));
                    ps.back().s = {s};
                }
                else
                {
                    if (s.t - ps.back().s.back().t < 100000) { continue; }
                    if (!survives([&] { ps.back().m->integrate(z(s)); })) run.fail("ended", "a sample %lld ns after the last ended the process", (long long)(s.t - ps.back().s.back().t));
                    ps.back().s.push_back(s);
                    ps.back().done = false;
                }
                run.simTime((all.size() > 1 ? all.back().t - all[all.size() - 2].t : 0) * 1e-9);
            }
            else if (o.name == "split" && !ps.empty())
            {
                const int64_t c = o.i(0);
                int at_piece = -1;
                for (size_t k = 0; k < ps.size(); ++k)
                    if (c > ps[k].s.front().t + HALF + 5 && c < ps[k].s.back().t - HALF - 5) at_piece = (int)k;
                if (at_piece < 0) continue;
                auto s = ps[at_piece].s;
                bool edge = false;
                for (auto& q : s) edge |= std::llabs(std::llabs(q.t - c) - HALF) <= 5;
                if (edge) continue;
                size_t i = 0;  // last sample that counts as not after the cut
                while (i + 1 < s.size() && s[i + 1].t <= c + HALF) ++i;
                Piece second;
                second.near = ps[at_piece].near;
                if (std::llabs(s[i].t - c) < 2 * HALF || (i + 1 < s.size() && s[i + 1].t - c < 2 * HALF)) run.fault("cut-next-to-a-sample");
                run.fault("cut");
                if (!survives([&] { second.m.reset(new ImuModel(ps[at_piece].m->split(at(epoch, frac + c)))); })) run.fail("cut-ended", "cutting %lld ns after a sample and %lld ns before the next ended the process", (long long)(c - s[i].t), (long long)(s[i + 1].t - c));
                Sample cut = lerp(s[i], s[i + 1], c);
                second.s = {cut};
                for (size_t k = i + 1; k < s.size(); ++k) second.s.push_back(s[k]);
                s.resize(i + 1);
                if (c - s.back().t > HALF) s.push_back(cut);
                else if (c != s.back().t) second.near = true;
                ps[at_piece].s = s;
                ps[at_piece].done = false;
                ps.insert(ps.begin() + at_piece + 1, std::move(second));
                ++cuts;
                run.state(mix(ps.size(), mix(at_piece, (c - s.back().t) / 25000)));
            }
            else if (o.name == "finish" && !ps.empty())
            {
                Piece& pc = ps[o.u(0) % ps.size()];
                if (pc.done || pc.m->numUpdates() < 3) continue;
                bool close = false;
                for (size_t k = 1; k < pc.s.size(); ++k) close |= pc.s[k].t - pc.s[k - 1].t < 900000;
                if (close && pc.s.size() < 6) continue;
                if (!survives([&] { pc.m->finished(); })) run.fail("finish-ended", "finishing a piece of %d updates ended the process", pc.m->numUpdates());
                pc.done = true;
                // the weight is that of the covariance
                const mc::Mat9 W = pc.m->Xi() * pc.m->covariance() * pc.m->Xi().transpose();
                if (!((W - mc::Mat9::Identity()).cwiseAbs().maxCoeff() < 1e-2)) run.fail("weight", "the weight of a finished piece of %d updates is off its covariance by %.3e", pc.m->numUpdates(), (W - mc::Mat9::Identity()).cwiseAbs().maxCoeff());
                run.probe("finished");
            }
        }
        (void)open;
        if (ps.empty() || all.size() < 2) return;
        // every piece, and the chain of them
        Pose x = start;
        int64_t gap = 0;
        for (size_t k = 0; k < ps.size(); ++k)
        {
            const int64_t g = k ? ps[k].s.front().t - ps[k - 1].s.back().t : 0;
            if (std::llabs(g) > HALF) run.fail("gap", "%lld ns between two pieces", (long long)g);
            gap += std::llabs(g);
            verify(run, ps[k], &x, k == 0);
        }
        if (cuts) run.nontrivial();
        // end to end
        Tol tol;
        const Pose end = truth(all, start, &tol);
        double am = 0, wm = 0, vm = start.v.norm() + tol.v, T = (all.back().t - all.front().t) * 1e-9;
        for (auto& s : all) { am = std::max(am, s.a.norm()); wm = std::max(wm, s.w.norm()); }
        vm += (am + 9.81) * T;
        const double g = (gap + 2 * HALF * cuts) * 1e-9, eth = 2 * tol.th + 3 * wm * g, ev = 2 * tol.v + 2 * (am + 10) * g + eth * (vm + am * T) + wm * g * vm, ep = 2 * tol.p + vm * g + ev * T;
        if (ps.back().s.back().t == all.back().t)
        {
            if (!(angle(end.R, x.R) <= eth)) run.fail("chain-attitude", "%zu pieces in a row end with an attitude off by %.3e rad (limit %.3e)", ps.size(), angle(end.R, x.R), eth);
            if (!((end.R * end.v - x.R * x.v).norm() <= ev)) run.fail("chain-velocity", "%zu pieces in a row end with a velocity off by %.6f m/s (limit %.6f)", ps.size(), (end.R * end.v - x.R * x.v).norm(), ev);
            if (!((end.p - x.p).norm() <= ep)) run.fail("chain-position", "%zu pieces in a row end %.6f m off (limit %.6f)", ps.size(), (end.p - x.p).norm(), ep);
        }
        for (auto& pc : ps) run.evbytes(pc.m->state().alpha.data(), 24);
    }
};
DST_SCENARIO("C26", Inertial)

// ------------------------------------------------------------------ C36
struct Models : Scenario
{
    double watchdogSec() const override { return 60; }
    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p, steps;
        const int64_t total = genSteps(rng, steps, thorough, 100000000);
        genWorld(rng, p, thorough, total * 1e-9, true);
        genPlace(rng, p);
        genNoise(rng, p, false);
        p.setd("clock_walk_stdev", rng.chance(0.5) ? 0 : std::pow(10, rng.uniform(-11, -8)));
        p.setd("clock_init_stdev", rng.chance(0.3) ? 0 : std::pow(10, rng.uniform(-9, -4)));
        p.setd("input_noise", rng.chance(0.5) ? 0 : 0.01);
        p.setd("gnss_update_rate", rng.pick(std::vector<double>{1, 2, 5, 10}));
        p.setd("update_rate", 1);
        p.set("seed", (int64_t)(rng.u64() >> 8));
        for (auto& o : steps.ops) p.ops.push_back(o);
        return p;
    }
    struct Epoch
    {
        UTCTime t;
        DQuat<double> T;
        Vec3 v, w, ant;
        Vec2 clk;
        std::map<std::pair<int, int>, mc::meas::GnssObservation> obs;
        std::map<std::pair<int, int>, double> range, atm;  // as the geometry has it
    };

    void execute(const Plan& plan, Run& run) override
    {
        World w(plan);
        Config c(plan);
        clk::start((w.epoch - 1000) * NS);
        const std::string dir = run.scratch + "/eph";
        fs::create_directories(dir);
        const std::string log = w.write(dir, &run);
        mc::sim::Sim::Options opt;
        opt.gnss_options.p_b2g.setZero();
        configure(c, w, log, opt);
        std::unique_ptr<mc::sim::Sim> sim;
        if (!survives([&] { sim.reset(new mc::sim::Sim(opt)); })) run.fail("refused", "the simulator refuses a complete configuration");
        Watch watch;
        watch.connect(*sim, 1);
        Rng r((uint64_t)plan.get("seed"));
        const bool strict = plan.get("units");

        // the estimator's satellites
        std::map<std::pair<int, int>, std::unique_ptr<mc::satellite::SatelliteBase>> sats;
        auto add = [&](auto e) {
            using E = decltype(e);
            auto& s = sats[{gnssOf<E>(), e.sat}];
            if (!s) s.reset(new mc::satellite::Satellite<E>(gnssOf<E>(), e.sat));
            static_cast<mc::satellite::Satellite<E>*>(s.get())->addEph(e);
        };
        for (auto& q : w.recs)
        {
            if (q.sys == 0) add(make<GpsEph>(q.sat, q.seed, w.gps0 + q.toe));
            else if (q.sys == 1) add(make<GalEph>(q.sat, q.seed, w.gps0 + q.toe));
            else add(make<GloEph>(q.sat, q.seed, w.gps0 + q.toe));
        }
        const Mat3 Rn = nedToEcef(c.lla);
        // the reference may be anywhere near
        Pose off;
        off.p << r.uniform(-50, 50), r.uniform(-50, 50), r.uniform(-5, 5);
        off.R = expm(Vec3(r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1)));
        const DQuat<double> T_r2n = dq(off);
        const DQuat<double> T_e2r = opt.gnss_options.T_e2n * T_r2n.inverse();
        const Vec3 lever = opt.gnss_options.p_b2g;

        std::vector<Epoch> past;
        int checked = 0;
        for (auto& o : plan.ops)
        {
            if (o.name != "step") continue;
            for (int64_t k = 0; k < o.i(0); ++k)
            {
                watch.clear();
                if (!survives([&] { sim->step(o.i(1) * 1e-9); })) run.fail("ended", "the simulator ended the process");
                run.ops();
                run.simTime(o.i(1) * 1e-9);
                if (!watch.n_obs) continue;
                Epoch e;
                e.t = sim->t();
                e.T = sim->x().x;
                e.v = sim->x().dx.tail<3>();
                e.w = sim->x().dx.head<3>();
                e.ant = sim->T_e2g().translation();
                e.clk = sim->clk() * 1e9;
                for (auto& ob : watch.obs)
                {
                    const std::pair<int, int> id{ob.gnss_id, ob.sat_num};
                    if (!sats.count(id)) run.fail("unknown-satellite", "an observation of satellite %d of %d", ob.sat_num, ob.gnss_id);
                    bool ok = true;
                    double tau = 0.07, range = 0;
                    Orbit s;
                    for (int q = 0; q < 6; ++q)
                    {
                        s = w.state(ob.gnss_id, ob.sat_num, at(e.t.sec, e.t.nsec - (int64_t)std::floor(tau * 1e9 + 0.5)), &ok);
                        const double sag = 7.2921151467e-5 * (s.p[0] * e.ant(1) - s.p[1] * e.ant(0)) / C;
                        range = (Vec3(s.p[0], s.p[1], s.p[2]) - e.ant).norm() + sag;
                        tau = range / C;
                    }
                    const Vec3 sp(s.p[0], s.p[1], s.p[2]), u = (sp - e.ant).normalized();
                    bool ok2 = true;
                    w.state(ob.gnss_id, ob.sat_num, e.t, &ok2);
                    const double up = u.dot(Rn * Vec3(0, 0, -1));
                    const bool singular = std::fabs(std::asin(up) / M_PI + 0.11) < 0.02 || std::fabs(up) < 0.005;
                    if (!ok || !ok2 || singular) { run.probe("left-out"); continue; }
                    const Vec3 sv(s.v[0], s.v[1], s.v[2]);

                    // --- the code range and range rate model
                    const double s1 = r.uniform(0.5, 5), s2 = r.uniform(0.1, 2), s3 = r.uniform(0.05, 1);
                    Mat3 cov = Mat3::Zero();
                    cov.diagonal() << s1 * s1, s2 * s2, s3 * s3;
                    // linearised at an approximate place
                    const double err = r.chance(0.5) || std::fabs(up) < 0.1 || std::fabs(std::asin(up) / M_PI + 0.11) < 0.05 ? 0 : r.uniform(0, 10);
                    const Vec3 near = e.ant + err * Vec3(r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1));
                    std::unique_ptr<mc::models::PseudorangeModel> m;
                    if (!survives([&] { m.reset(new mc::models::PseudorangeModel(ob, *sats.at(id), near, cov, T_e2r)); })) run.fail("model-ended", "building a model ended the process");
                    double sw = r.chance(0.5) ? 1 : r.uniform(0, 1);
                    Vec3 v = e.v, p = lever, res;
                    Vec2 ck = e.clk;
                    DQuat<double> T = e.T, Tr = T_r2n;
                    const double* par[6] = {T.data(), v.data(), ck.data(), Tr.data(), &sw, p.data()};
                    auto eval = [&] { res.setConstant(1e9); m->Evaluate(par, res.data(), nullptr); return Vec3(res(0) * s1, res(1) * s2, res(2) * s3); };
                    const double lim = (id.first == GnssID::Glonass ? 0.02 : 0.005) + err * (1e-3 + 1e-3 / std::max(0.1, std::fabs(up)));
                    const Vec3 base = eval();
                    // (the model takes the antenna to move as the body does)
                    const double rot_dop = (Rn * (rotOf(e.T.rotation()) * e.w.cross(lever))).dot(u);
                    if (!(std::fabs(base(0)) <= sw * lim + 1e-9)) run.fail("pseudorange", "satellite %d of %d: the range residual at the truth is %.6f m (switch %.3f, error %.3f m, up %.4f)", id.second, id.first, base(0), sw, err, up);
                    if (!(std::fabs(base(1) - sw * rot_dop) <= sw * (0.002 + err * 1e-3 + 1e-4 * std::fabs(rot_dop)) + 1e-9)) run.fail("doppler", "satellite %d of %d: the range rate residual at the truth is %.6f m/s (%.6f expected)", id.second, id.first, base(1), sw * rot_dop);
                    if (!(std::fabs(base(2) - (1 - sw)) < 1e-9)) run.fail("switch", "the switch residual is %.6f at a switch of %.6f", base(2), sw);
                    ++checked;
                    // beside the truth
                    const Vec3 d(r.uniform(-30, 30), r.uniform(-30, 30), r.uniform(-30, 30));
                    {
                        Pose q = poseOf(e.T, e.v);
                        q.p += d;
                        T = dq(q);
                        const Vec3 got = eval();
                        const double want = (sp - e.ant - Rn * d).norm() - (sp - e.ant).norm();
                        if (!(std::fabs(got(0) - base(0) - sw * want) < 1e-4)) run.fail("range-by-position", "a displacement changes the range residual by %.5f m instead of %.5f m", got(0) - base(0), sw * want);
                        T = e.T;
                        ck = e.clk + Vec2(d(0), d(1));
                        const Vec3 gc = eval();
                        if (!(std::fabs(gc(0) - base(0) - sw * d(0) * C * 1e-9) < 1e-4 && std::fabs(gc(1) - base(1) - sw * d(1) * C * 1e-9) < 1e-4)) run.fail("range-by-clock", "a clock error of %.3f ns, %.3f ns/s changes the residuals by %.4f m, %.4f m/s", d(0), d(1), gc(0) - base(0), gc(1) - base(1));
                        ck = e.clk;
                        v = e.v + d;
                        const Vec3 gv = eval();
                        const double wantv = -(Rn * (rotOf(e.T.rotation()) * d)).dot(u);
                        if (!(std::fabs(gv(1) - base(1) - sw * wantv) < 1e-3 && std::fabs(gv(0) - base(0)) < 1e-6)) run.fail("doppler-by-velocity", "a velocity error changes the range rate residual by %.5f m/s instead of %.5f m/s", gv(1) - base(1), sw * wantv);
                        v = e.v;
                        p = lever + 0.1 * d;
                        const Vec3 gl = eval();
                        const double wantl = (sp - e.ant - Rn * (rotOf(e.T.rotation()) * (0.1 * d))).norm() - (sp - e.ant).norm();
                        if (!(std::fabs(gl(0) - base(0) - sw * wantl) < 1e-4)) run.fail("range-by-antenna", "a displaced antenna changes the range residual by %.5f m instead of %.5f m", gl(0) - base(0), sw * wantl);
                    }
                    e.obs[id] = ob;
                    e.range[id] = range - C * s.clk;
                    mc::satellite::SatelliteState ss;
                    ss.t = e.t;
                    ss.pos = sp;
                    ss.vel = sv;
                    ss.clk << s.clk, s.drift;
                    mc::satellite::AtmosphericCorrection atm;
                    mc::satellite::computeAtmCorrection(e.t, e.ant, ss, mc::make_out(atm));
                    e.atm[id] = atm.ionospheric_delay_m + atm.tropospheric_delay_m;

                    // --- carrier phase since an earlier epoch
                    for (int q = 0; q < 2 && !past.empty(); ++q)
                    {
                        const Epoch& f = past[r.below(past.size())];
                        if (!f.obs.count(id)) continue;
                        double sa = r.uniform(0.1, 1), sb = r.uniform(0.1, 1);
                        const double xi = r.uniform(0.5, 20);
                        std::unique_ptr<mc::models::RelativeCarrierPhase> cp;
                        if (!survives([&] { cp.reset(new mc::models::RelativeCarrierPhase(f.obs.at(id), ob, *sats.at(id), e.ant, T_e2r, xi)); })) run.fail("model-ended", "building a carrier phase model ended the process");
                        const double* par2[8] = {f.T.data(), e.T.data(), f.clk.data(), e.clk.data(), &sa, &sb, T_r2n.data(), lever.data()};
                        double res2 = 1e9;
                        cp->Evaluate(par2, &res2, nullptr);
                        const double lambda = w.lambda.at(id), D = e.range.at(id) + C * e.clk(0) * 1e-9 - f.range.at(id) - C * f.clk(0) * 1e-9;
                        const double dphi = ob.carrier_phase - f.obs.at(id).carrier_phase, got = res2 / (xi * sa * sb);
                        // (the model leaves the atmosphere to cancel)
                        const double tol = (std::fabs(e.atm.at(id) - f.atm.at(id)) + lim + (e.ant - f.ant).norm() * 1e-4) / lambda + 0.01;
                        const bool right = std::fabs(got - (dphi - D / lambda)) <= tol && std::fabs(got) <= tol;
                        const bool units = std::fabs(got - (dphi - D * lambda)) <= tol;
                        if (!right && !units) run.fail("carrier-phase", "satellite %d of %d: the carrier phase residual over %.1f s is %.5f cycles (%.5f expected, limit %.5f)", id.second, id.first, diff(e.t, f.t), got, dphi - D / lambda, tol);
                        // known finding: only reported by the plan that demonstrates it
                        if (!right) run.probe("known-units");
                        if (!right && strict) run.fail("carrier-phase-units", "satellite %d of %d: the carrier phase residual at the truth is %.3f cycles over %.1f s: the distance is multiplied by the wavelength instead of divided", id.second, id.first, got, diff(e.t, f.t));
                        run.probe("carrier-phase");
                    }
                }
                if (!past.empty())
                {
                    const Epoch& f = past.back();
                    const Vec3 xi(r.uniform(0.1, 10), r.uniform(0.1, 10), r.uniform(0.1, 10));
                    mc::models::GnssDynamics gd(f.t, e.t, xi);
                    double sa = r.uniform(0, 1), sb = r.uniform(0, 1);
                    const double* par[4] = {f.clk.data(), e.clk.data(), &sa, &sb};
                    Vec3 res;
                    gd.Evaluate(par, res.data(), nullptr);
                    const double sc = 1e-9 * (1 + std::fabs(e.clk(0))) + 1e-6 * std::fabs(e.clk(0) - f.clk(0));
                    if (!(std::fabs(res(0) / xi(0)) <= sc)) run.fail("clock", "the clock residual of the true clock is %.3e ns over %.3f s", res(0) / xi(0), diff(e.t, f.t));
                    if (!(std::fabs(res(1) / xi(1) - (e.clk(1) - f.clk(1))) <= 1e-9 * (1 + std::fabs(e.clk(1))))) run.fail("clock-rate", "the clock rate residual is %.3e ns/s", res(1) / xi(1));
                    if (!(std::fabs(res(2) / xi(2) - (sb - sa)) <= 1e-9)) run.fail("switch-change", "the residual of a changed switch is %.6f", res(2) / xi(2));
                }
                past.push_back(e);
                run.state(mix(e.obs.size(), past.size()));
                run.evbytes(e.ant.data(), 24);
            }
        }
        if (checked > 10) run.nontrivial();
    }
};
DST_SCENARIO("C36", Models)

}  // namespace
