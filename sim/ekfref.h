// An extended Kalman filter of the documented models, written down independently of the generated one:
// rotation matrices instead of dual quaternions, one dense covariance, numerical derivatives of the
// measurements in extended precision.
#pragma once

#include <Eigen/Dense>

namespace ref {

using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;
using VX = Eigen::VectorXd;
using MX = Eigen::MatrixXd;
template <typename T> using TV3 = Eigen::Matrix<T, 3, 1>;
template <typename T> using TM3 = Eigen::Matrix<T, 3, 3>;

template <typename T>
TM3<T> hat(const TV3<T>& a)
{
    TM3<T> m;
    m << T(0), -a(2), a(1), a(2), T(0), -a(0), -a(1), a(0), T(0);
    return m;
}
// exponential of a twist by its series: [R V v; 0 1]
template <typename T>
void expSE3(const TV3<T>& w, const TV3<T>& v, TM3<T>& R, TV3<T>& t)
{
    const TM3<T> W = hat<T>(w);
    TM3<T> term = TM3<T>::Identity(), S = TM3<T>::Identity(), J = TM3<T>::Identity();
    for (int k = 1; k < 40; ++k)
    {
        term = (term * W) / T(k);
        S += term;
        J += term / T(k + 1);
    }
    R = S;
    t = J * v;
}

// error state: pose 0-5 (rotation, translation; in the body frame), velocity 6, biases 9 and 12, clocks 15, 17, 19,
// lever arm 21, frame 24-29, ambiguities from 30
struct Filter
{
    M3 R = M3::Identity(), Rf = M3::Identity();  // body -> local, ECEF -> local
    V3 p = V3::Zero(), pf = V3::Zero(), vel = V3::Zero(), ba = V3::Zero(), bg = V3::Zero(), lever = V3::Zero();
    Eigen::Vector2d clk[3];
    VX sd;
    MX P;
    V3 acc = V3(0, 0, -9.80665), gyro = V3::Zero();  // of the last sample
    VX q;                                            // process noise of one step
    V3 qa, qg;
    VX spread;            // accuracy of the last measurement's prediction
    double surprise = 0;  // largest innovation so far, in standard deviations

    void move(const VX& d)
    {
        M3 dR;
        V3 dt;
        expSE3<double>(d.segment<3>(0), d.segment<3>(3), dR, dt);
        p += R * dt;
        R = R * dR;
        vel += d.segment<3>(6);
        ba += d.segment<3>(9);
        bg += d.segment<3>(12);
        for (int k = 0; k < 3; ++k) clk[k] += d.segment<2>(15 + 2 * k);
        lever += d.segment<3>(21);
        expSE3<double>(d.segment<3>(24), d.segment<3>(27), dR, dt);
        pf += Rf * dt;
        Rf = Rf * dR;
        sd += d.tail(sd.size());
        // keep the rotations orthogonal
        for (M3* m : {&R, &Rf})
        {
            Eigen::JacobiSVD<M3> svd(*m, Eigen::ComputeFullU | Eigen::ComputeFullV);
            *m = svd.matrixU() * svd.matrixV().transpose();
        }
    }

    // strapdown: the body turns with the rate, gravity pulls, the velocity is that of the body in its own frame
    void predict(double dt, const V3& a, const V3& g)
    {
        const int n = (int)P.rows();
        const V3 w = g - bg, gb = R.transpose() * V3(0, 0, 9.80665);
        MX A = MX::Zero(n, n), B = MX::Zero(n, 6);
        A.block<3, 3>(0, 0) = -hat<double>(w);
        A.block<3, 3>(0, 12) = -M3::Identity();
        A.block<3, 3>(3, 0) = -hat<double>(vel);
        A.block<3, 3>(3, 3) = -hat<double>(w);
        A.block<3, 3>(3, 6) = M3::Identity();
        A.block<3, 3>(6, 0) = hat<double>(gb);
        A.block<3, 3>(6, 6) = -hat<double>(w);
        A.block<3, 3>(6, 9) = -M3::Identity();
        A.block<3, 3>(6, 12) = -hat<double>(vel);
        for (int k = 0; k < 3; ++k) A(15 + 2 * k, 16 + 2 * k) = 1;
        B.block<3, 3>(0, 3) = M3::Identity();
        B.block<3, 3>(6, 0) = M3::Identity();
        B.block<3, 3>(6, 3) = hat<double>(vel);
        const MX I = MX::Identity(n, n), F = I + dt * A + 0.5 * dt * dt * A * A, G = dt * (I + 0.5 * dt * A) * B;
        Eigen::Matrix<double, 6, 1> Q;
        Q << qa, qg;
        P = (F * P * F.transpose() + G * Q.asDiagonal() * G.transpose()).eval();
        P.diagonal() += q;
        VX d = VX::Zero(n);
        d.segment<3>(0) = w * dt;
        d.segment<3>(3) = vel * dt;
        d.segment<3>(6) = (gb + a - ba - w.cross(vel)) * dt;
        for (int k = 0; k < 3; ++k) d(15 + 2 * k) = clk[k](1) * dt;
        move(d);
        acc = a;
        gyro = g;
    }

    void update(const MX& H, const VX& res, const VX& r)
    {
        const MX PHt = P * H.transpose();
        MX S = H * PHt;
        S.diagonal() += r;
        surprise = std::max(surprise, std::sqrt(std::max(0.0, res.dot(S.ldlt().solve(res)))));
        spread = S.diagonal().cwiseSqrt();
        const MX K = S.ldlt().solve(PHt.transpose()).transpose();
        const MX IKH = MX::Identity(P.rows(), P.rows()) - K * H;
        P = (IKH * P * IKH.transpose() + K * r.asDiagonal() * K.transpose()).eval();  // Joseph form
        P = (0.5 * (P + P.transpose())).eval();
        move(K * res);
    }

    // position and velocity of the antenna in ECEF when the error state is d (only the parts it depends on)
    template <typename T>
    Eigen::Matrix<T, 6, 1> antenna(const Eigen::Matrix<T, Eigen::Dynamic, 1>& d) const
    {
        TM3<T> dR, R1, F1;
        TV3<T> dt, p1, f1;
        expSE3<T>(d.template segment<3>(0), d.template segment<3>(3), dR, dt);
        R1 = R.cast<T>() * dR;
        p1 = p.cast<T>() + R.cast<T>() * dt;
        expSE3<T>(d.template segment<3>(24), d.template segment<3>(27), dR, dt);
        F1 = Rf.cast<T>() * dR;
        f1 = pf.cast<T>() + Rf.cast<T>() * dt;
        const TV3<T> l = lever.cast<T>() + d.template segment<3>(21), v = vel.cast<T>() + d.template segment<3>(6);
        Eigen::Matrix<T, 6, 1> z;
        z.template head<3>() = F1.transpose() * (p1 + R1 * l - f1);
        z.template tail<3>() = F1.transpose() * (R1 * (TV3<T>(gyro.cast<T>()).cross(l) + v));
        return z;
    }
    Eigen::Matrix<double, 6, 1> antenna() const
    {
        return antenna<double>(VX::Zero(P.rows()));
    }

    Eigen::Matrix<double, 6, 1> point(const VX& z, const VX& r)
    {
        using L = long double;
        const int n = (int)P.rows();
        MX H = MX::Zero(6, n);
        for (int k = 0; k < 30; ++k)
        {
            if (k >= 9 && k < 21) continue;
            const L h = 1e-4L;
            Eigen::Matrix<L, Eigen::Dynamic, 1> d = Eigen::Matrix<L, Eigen::Dynamic, 1>::Zero(n);
            d(k) = h;
            const Eigen::Matrix<L, 6, 1> a = antenna<L>(d);
            d(k) = -h;
            H.col(k) = ((a - antenna<L>(d)) / (2 * h)).cast<double>();
        }
        const Eigen::Matrix<double, 6, 1> res = z - antenna();
        update(H, res, r);
        return res;
    }
    void fix(const VX& z, double r)
    {
        const int m = (int)sd.size();
        MX H = MX::Zero(m, P.rows());
        H.rightCols(m).setIdentity();
        update(H, z - sd, VX::Constant(m, r));
    }
};

}  // namespace ref
