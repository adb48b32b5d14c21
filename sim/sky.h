// Simulated ephemerides of the three constellations and independently written orbit equations.
#pragma once

#include <setjmp.h>

#include <cmath>
#include <cstdint>

#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
#include "core.h"

namespace sky {

using GpsEph = mc::ephemeris::GPSEphemeris;
using GalEph = mc::ephemeris::GalileoEphemeris;
using GloEph = mc::ephemeris::GlonassEphemeris;
using mc::UTCTime;
using mc::Vec3;

// time differences without the code under test
inline double diff(const UTCTime& a, const UTCTime& b) { return (double)(a.sec - b.sec) + (double)(a.nsec - b.nsec) * 1e-9; }
inline int64_t ns(const UTCTime& a, int64_t epoch) { return (a.sec - epoch) * 1000000000ll + a.nsec; }
inline UTCTime at(int64_t epoch, int64_t t_ns)
{
    int64_t s = t_ns / 1000000000ll, n = t_ns % 1000000000ll;
    if (n < 0) { n += 1000000000ll; --s; }
    UTCTime t;
    t.sec = epoch + s;
    t.nsec = n;
    return t;
}

inline void fillKepler(mc::ephemeris::KeplerianEphemeris& e, dst::Rng& r, int64_t gps_toe_s)
{
    e.toe = UTCTime();
    e.toe.sec = gps_toe_s + UTCTime::GPS_UTC_OFFSET;
    e.toc = e.toe;
    e.toc.sec += (int64_t)r.below(5) * 600 - 1200;  // clock and orbit may refer to different times
    e.toes = (uint32_t)(gps_toe_s % 604800);
    e.tocs = (uint32_t)(((int64_t)e.toes + (e.toc.sec - e.toe.sec) + 604800) % 604800);
    e.tow = e.toes;
    e.week = (uint16_t)(gps_toe_s / 604800);
    e.iode = (uint8_t)r.below(256);
    e.iodc = e.iode;
    e.af2 = r.chance(0.5) ? 0 : r.uniform(-1e-15, 1e-15);
    e.af1 = r.uniform(-1e-11, 1e-11);
    e.af0 = r.uniform(-9e-4, 9e-4);
    e.m0 = r.chance(0.1) ? 0 : r.uniform(-3.1, 3.1);  // at perigee
    e.delta_n = r.uniform(3e-9, 6e-9);
    e.ecc = r.uniform(0.001, 0.02);
    if (r.chance(0.15)) e.ecc = r.uniform(0.1, 0.3);  // (there are some: Galileo 5 and 6)
    e.sqrta = r.uniform(5150, 5440);
    e.omega0 = r.uniform(-3.1, 3.1);
    e.i0 = r.uniform(0.9, 1.0);
    e.w = r.uniform(-3.1, 3.1);
    e.omegadot = r.uniform(-9e-9, -7e-9);
    e.idot = r.uniform(-5e-10, 5e-10);
    e.cuc = r.uniform(-8e-6, 8e-6);
    e.cus = r.uniform(-8e-6, 8e-6);
    e.crc = r.uniform(-300, 300);
    e.crs = r.uniform(-150, 150);
    e.cic = r.uniform(-2e-7, 2e-7);
    e.cis = r.uniform(-2e-7, 2e-7);
}

inline void makeEph(GpsEph& e, uint64_t seed, int64_t gps_toe_s)
{
    dst::Rng r(seed);
    fillKepler(e, r, gps_toe_s);
    e.health = e.alert_flag = e.anti_spoof = e.code_on_L2 = e.ura = e.L2_P_data_flag = e.fit_interval_flag = 0;
    e.age_of_data_offset = 0;
    e.tgd = r.uniform(-1e-8, 1e-8);
}
inline void makeEph(GalEph& e, uint64_t seed, int64_t gps_toe_s)
{
    dst::Rng r(seed);
    fillKepler(e, r, gps_toe_s);
}
inline void makeEph(GloEph& e, uint64_t seed, int64_t gps_toe_s)
{
    dst::Rng r(seed);
    e.toe = UTCTime();
    e.toe.sec = gps_toe_s + UTCTime::GPS_UTC_OFFSET;
    e.tof = e.toe;
    e.iode = (int)r.below(128);
    e.svh = e.sva = e.age = 0;
    // circular orbit of 25508 km, 64.8 degrees, seen from the rotating earth
    const double R = r.uniform(25.49e6, 25.53e6), u = r.uniform(-3.1, 3.1), O = r.uniform(-3.1, 3.1), inc = r.uniform(1.11, 1.15);
    const double V = std::sqrt(3.986004418e14 / R), W = 7.292115e-5;
    const double cu = std::cos(u), su = std::sin(u), cO = std::cos(O), sO = std::sin(O), ci = std::cos(inc), si = std::sin(inc);
    e.pos << R * (cu * cO - su * ci * sO), R * (cu * sO + su * ci * cO), R * su * si;
    e.vel << V * (-su * cO - cu * ci * sO) + W * e.pos.y(), V * (-su * sO + cu * ci * cO) - W * e.pos.x(), V * cu * si;
    e.acc << r.uniform(-3e-6, 3e-6), r.uniform(-3e-6, 3e-6), r.uniform(-3e-6, 3e-6);
    e.taun = r.uniform(-5e-4, 5e-4);
    e.gamn = r.uniform(-1e-11, 1e-11);
    e.dtaun = r.uniform(-1e-8, 1e-8);
}

struct Orbit
{
    double p[3], v[3], clk, drift;
};

// IS-GPS-200 table 20-IV, velocity by differences
inline void kepler1(const mc::ephemeris::KeplerianEphemeris& e, long double tk, long double* p, long double* ecc_anomaly)
{
    const long double mu = 3.986005e14L, we = 7.2921151467e-5L;
    const long double A = (long double)e.sqrta * e.sqrta, n = sqrtl(mu / (A * A * A)) + e.delta_n, M = e.m0 + n * tk;
    long double E = M;
    for (int k = 0; k < 60; ++k) E = M + e.ecc * sinl(E);
    const long double nu = atan2l(sqrtl(1 - (long double)e.ecc * e.ecc) * sinl(E), cosl(E) - e.ecc), phi = nu + e.w;
    const long double u = phi + e.cus * sinl(2 * phi) + e.cuc * cosl(2 * phi), r = A * (1 - e.ecc * cosl(E)) + e.crs * sinl(2 * phi) + e.crc * cosl(2 * phi);
    const long double i = e.i0 + e.idot * tk + e.cis * sinl(2 * phi) + e.cic * cosl(2 * phi), O = e.omega0 + (e.omegadot - we) * tk - we * e.toes;
    const long double x = r * cosl(u), y = r * sinl(u);
    p[0] = x * cosl(O) - y * cosl(i) * sinl(O);
    p[1] = x * sinl(O) + y * cosl(i) * cosl(O);
    p[2] = y * sinl(i);
    *ecc_anomaly = E;
}
inline Orbit orbit(const mc::ephemeris::KeplerianEphemeris& e, const UTCTime& t)
{
    Orbit o;
    const long double tk = diff(t, e.toe), h = 0.05L;
    long double a[3], b[3], p[3], E, E2;
    kepler1(e, tk, p, &E);
    kepler1(e, tk - h, a, &E2);
    kepler1(e, tk + h, b, &E2);
    for (int k = 0; k < 3; ++k) { o.p[k] = (double)p[k]; o.v[k] = (double)((b[k] - a[k]) / (2 * h)); }
    const double tc = diff(t, e.toc), c = 299792458.0;
    o.clk = e.af0 + e.af1 * tc + e.af2 * tc * tc - 2 * std::sqrt(3.986005e14) / (c * c) * e.ecc * e.sqrta * (double)sinl(E);
    o.drift = e.af1 + 2 * e.af2 * tc;
    return o;
}

// GLONASS ICD, appendix 3.1.2, integrated with 10 s steps from the reference time
inline void gloRate(const double* s, const Vec3& acc, double* d)
{
    const double mu = 3.9860044e14, a = 6378136.0, J2 = 1.0826257e-3, w = 7.292115e-5;
    const double r2 = s[0] * s[0] + s[1] * s[1] + s[2] * s[2], r = std::sqrt(r2), k = mu / (r2 * r), q = 1.5 * J2 * mu * a * a / (r2 * r2 * r), z2 = 5 * s[2] * s[2] / r2;
    d[0] = s[3]; d[1] = s[4]; d[2] = s[5];
    d[3] = (-k - q * (1 - z2) + w * w) * s[0] + 2 * w * s[4] + acc(0);
    d[4] = (-k - q * (1 - z2) + w * w) * s[1] - 2 * w * s[3] + acc(1);
    d[5] = (-k - q * (3 - z2)) * s[2] + acc(2);
}
inline Orbit orbit(const GloEph& e, const UTCTime& t)
{
    double s[6] = {e.pos(0), e.pos(1), e.pos(2), e.vel(0), e.vel(1), e.vel(2)};
    const double T = diff(t, e.toe);
    const int n = std::max(1, (int)std::ceil(std::fabs(T) / 10));
    const double h = T / n;
    for (int k = 0; k < n; ++k)
    {
        double k1[6], k2[6], k3[6], k4[6], x[6];
        gloRate(s, e.acc, k1);
        for (int j = 0; j < 6; ++j) x[j] = s[j] + h / 2 * k1[j];
        gloRate(x, e.acc, k2);
        for (int j = 0; j < 6; ++j) x[j] = s[j] + h / 2 * k2[j];
        gloRate(x, e.acc, k3);
        for (int j = 0; j < 6; ++j) x[j] = s[j] + h * k3[j];
        gloRate(x, e.acc, k4);
        for (int j = 0; j < 6; ++j) s[j] += h / 6 * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]);
    }
    Orbit o;
    for (int j = 0; j < 3; ++j) { o.p[j] = s[j]; o.v[j] = s[3 + j]; }
    o.clk = -e.taun + e.gamn * T;
    o.drift = e.gamn;
    return o;
}

// Calls f; if it ends the process instead of returning, control comes back here and the result is false.
extern jmp_buf exit_jmp;
void onExitJump(int);
template <typename F>
bool survives(F f)
{
    auto old = dst::setExitHandler(&onExitJump);
    bool ok = true;
    if (setjmp(exit_jmp) == 0)
        f();
    else
        ok = false;
    dst::setExitHandler(old);
    return ok;
}

}  // namespace sky
