// Record types used by the log simulations: how to fill one, how to flatten one into named leaves.
// A leaf is (path, element type code of the on-disk format, rows, cols, bytes).  The flattening is the
// independent statement of what a record contains; it shares nothing with the code under test.
#pragma once
#include <Eigen/Core>
#include <array>
#include <cmath>
#include <cstring>
#include <functional>
#include <string>
#include <tuple>
#include <vector>

#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
#include "common/logging/log_reader.h"
#include "common/logging/log_writer.h"
#include "common/math/dquat.h"
#include "common/math/jet.h"
#include "common/math/quat.h"
#include "common/math/two_jet.h"
#include "common/measurements/gnss_observation.h"
#include "common/measurements/imu.h"
#include "core.h"

namespace logt {
using dst::Rng;

struct Leaf
{
    std::string path;
    int type;      // on-disk element type code
    int count;     // number of elements
    bool approx;   // derived value: compared with a tolerance
    std::vector<unsigned char> bytes;
    int rows = 1;  // of a matrix
};
using Leaves = std::vector<Leaf>;

inline int typeSize(int t)
{
    static const int s[] = {8, 4, 8, 4, 2, 1, 8, 4, 2, 1};
    return t >= 0 && t < 10 ? s[t] : -1;
}
template <typename T> struct Code;
template <> struct Code<double> { static const int v = 0; };
template <> struct Code<float> { static const int v = 1; };
template <> struct Code<int64_t> { static const int v = 2; };
template <> struct Code<int32_t> { static const int v = 3; };
template <> struct Code<int16_t> { static const int v = 4; };
template <> struct Code<int8_t> { static const int v = 5; };
template <> struct Code<uint64_t> { static const int v = 6; };
template <> struct Code<uint32_t> { static const int v = 7; };
template <> struct Code<uint16_t> { static const int v = 8; };
template <> struct Code<uint8_t> { static const int v = 9; };

// ---- scalars
template <typename T>
std::enable_if_t<std::is_arithmetic<T>::value> fill(T& x, Rng& r)
{
    if constexpr (std::is_floating_point<T>::value)
    {
        switch (r.below(12))
        {
        case 0: x = 0; break;
        case 1: x = -0.0; break;
        case 2: x = std::numeric_limits<T>::infinity(); break;
        case 3: x = std::numeric_limits<T>::denorm_min(); break;
        case 4: x = std::numeric_limits<T>::lowest(); break;
        default: x = (T)(r.gauss() * std::pow(10.0, (double)r.range(-12, 12)));
        }
    }
    else
        x = (T)r.u64();
}
template <typename T>
std::enable_if_t<std::is_arithmetic<T>::value> flat(const T& x, const std::string& p, Leaves& o, bool approx = false)
{
    Leaf l{p, Code<T>::v, 1, approx, {}};
    l.bytes.assign((const unsigned char*)&x, (const unsigned char*)&x + sizeof(T));
    o.push_back(l);
}
// ---- matrices
template <typename S, int R, int C, int O, int MR, int MC>
void fill(Eigen::Matrix<S, R, C, O, MR, MC>& m, Rng& r)
{
    for (int c = 0; c < m.cols(); ++c)
        for (int k = 0; k < m.rows(); ++k) fill(m(k, c), r);
}
template <typename S, int R, int C, int O, int MR, int MC>
void flat(const Eigen::Matrix<S, R, C, O, MR, MC>& m, const std::string& p, Leaves& o, bool approx = false)
{
    Leaf l{p, Code<S>::v, (int)m.size(), approx, {}};
    for (int c = 0; c < m.cols(); ++c)
        for (int k = 0; k < m.rows(); ++k)
        {
            S x = m(k, c);
            l.bytes.insert(l.bytes.end(), (unsigned char*)&x, (unsigned char*)&x + sizeof(S));
        }
    l.rows = (int)m.rows();
    o.push_back(l);
}
// ---- repository types
inline void fill(mc::UTCTime& t, Rng& r)
{
    t.sec = (int64_t)r.below(4000000000ull);
    t.nsec = (int64_t)r.below(1000000000ull);
}
inline void flat(const mc::UTCTime& t, const std::string& p, Leaves& o, bool = false)
{
    flat(t.sec, p + ".sec", o);
    flat(t.nsec, p + ".nsec", o);
}
inline void fill(mc::meas::ImuSample& x, Rng& r) { fill(x.t, r); fill(x.accel, r); fill(x.gyro, r); }
inline void flat(const mc::meas::ImuSample& x, const std::string& p, Leaves& o, bool = false)
{
    flat(x.t, p + ".t", o); flat(x.accel, p + ".accel", o); flat(x.gyro, p + ".gyro", o);
}
#define DST_F(n) fill(x.n, r);
#define DST_L(n) flat(x.n, p + "." #n, o);
inline void fill(mc::meas::GnssObservation& x, Rng& r)
{
    fill(x.t, r); DST_F(gnss_id) DST_F(sat_num) DST_F(freq) DST_F(pseudorange) DST_F(doppler) DST_F(carrier_phase)
}
inline void flat(const mc::meas::GnssObservation& x, const std::string& p, Leaves& o, bool = false)
{
    flat(x.t, p + ".t", o);
    DST_L(gnss_id) DST_L(sat_num) DST_L(freq) DST_L(pseudorange) DST_L(doppler) DST_L(carrier_phase)
}
#define DST_KEPLER(M) \
    M(tow) M(iodc) M(iode) M(week) M(toes) M(tocs) M(af2) M(af1) M(af0) M(m0) M(delta_n) M(ecc) M(sqrta) \
    M(omega0) M(i0) M(w) M(omegadot) M(idot) M(cuc) M(cus) M(crc) M(crs) M(cic) M(cis)
#define DST_GPS(M) \
    M(health) M(alert_flag) M(anti_spoof) M(code_on_L2) M(ura) M(L2_P_data_flag) M(fit_interval_flag) \
    M(age_of_data_offset) M(tgd)
#define DST_GAL(M) M(ai0) M(ai1) M(ai2) M(bgd_e1_e5a) M(bgd_e1_e5b) M(e5b_hs) M(e1b_hs) M(e5b_dvs) M(e1b_dvs)
#define DST_GLO1(M) M(iode) M(slot) M(svh) M(sva) M(age)
#define DST_GLO2(M) M(pos) M(vel) M(acc) M(taun) M(gamn) M(dtaun)
template <typename E>
void fillBase(E& x, Rng& r) { DST_F(gnssID) DST_F(sat) fill(x.toe, r); }
template <typename E>
void flatBase(const E& x, const std::string& p, Leaves& o)
{
    flat(x.gnssID, p + ".gnss_id", o);
    DST_L(sat)
    flat(x.toe, p + ".toe", o);
}
inline void fill(mc::ephemeris::GPSEphemeris& x, Rng& r) { fillBase(x, r); fill(x.toc, r); DST_KEPLER(DST_F) DST_GPS(DST_F) }
inline void flat(const mc::ephemeris::GPSEphemeris& x, const std::string& p, Leaves& o, bool = false)
{
    flatBase(x, p, o); flat(x.toc, p + ".toc", o); DST_KEPLER(DST_L) DST_GPS(DST_L)
}
inline void fill(mc::ephemeris::GalileoEphemeris& x, Rng& r) { fillBase(x, r); fill(x.toc, r); DST_KEPLER(DST_F) DST_GAL(DST_F) }
inline void flat(const mc::ephemeris::GalileoEphemeris& x, const std::string& p, Leaves& o, bool = false)
{
    flatBase(x, p, o); flat(x.toc, p + ".toc", o); DST_KEPLER(DST_L) DST_GAL(DST_L)
}
inline void fill(mc::ephemeris::GlonassEphemeris& x, Rng& r) { fillBase(x, r); DST_GLO1(DST_F) fill(x.tof, r); DST_GLO2(DST_F) }
inline void flat(const mc::ephemeris::GlonassEphemeris& x, const std::string& p, Leaves& o, bool = false)
{
    flatBase(x, p, o); DST_GLO1(DST_L) flat(x.tof, p + ".tof", o); DST_GLO2(DST_L)
}
inline void randUnit(double* q, Rng& r)
{
    double n = 0;
    for (int k = 0; k < 4; ++k) { q[k] = r.gauss(); n += q[k] * q[k]; }
    n = std::sqrt(n);
    for (int k = 0; k < 4; ++k) q[k] /= n;
}
inline void fillUnit(mc::math::Quat<double>& x, Rng& r)
{
    double q[4];
    randUnit(q, r);
    x = mc::math::Quat<double>(q[0], q[1], q[2], q[3]);
}
inline void fill(mc::math::Quat<double>& x, Rng& r)
{
    fillUnit(x, r);
    if (r.chance(0.4)) x.arr_ *= r.chance(0.5) ? r.uniform(0.0, 3.0) : 1.0 + 1e-9 * r.gauss();
}
inline void flat(const mc::math::Quat<double>& x, const std::string& p, Leaves& o, bool approx = false)
{
    flat((double)x.w(), p + ".w", o, approx); flat((double)x.x(), p + ".x", o, approx);
    flat((double)x.y(), p + ".y", o, approx); flat((double)x.z(), p + ".z", o, approx);
}
inline void fill(mc::math::DQuat<double>& x, Rng& r)
{
    mc::math::Quat<double> q;
    fillUnit(q, r);
    mc::Vec3 t;
    for (int k = 0; k < 3; ++k) t[k] = r.gauss() * std::pow(10.0, (double)r.range(0, 6));
    x = mc::math::DQuat<double>(q, t);
}
inline void flat(const mc::math::DQuat<double>& x, const std::string& p, Leaves& o, bool = false)
{
    const mc::math::Quat<double> q(x.real());
    flat(q, p + ".rot", o, true);
    const mc::Vec3 t = x.translation();
    flat(t, p + ".trans", o, true);
}
inline void flatTangent(const mc::Vec6& v, const std::string& p, Leaves& o)
{
    const mc::Vec3 a = v.head<3>(), l = v.tail<3>();
    flat(a, p + ".angular", o);
    flat(l, p + ".linear", o);
}
inline void fillTangent(mc::math::DQuat<double>::TangentVector& v, Rng& r)
{
    for (int k = 0; k < 6; ++k) { double d; fill(d, r); v(k) = d; }
}
inline void fill(mc::math::Jet<double>& x, Rng& r) { fill(x.x, r); fillTangent(x.dx, r); }
inline void flat(const mc::math::Jet<double>& x, const std::string& p, Leaves& o, bool = false)
{
    flat(x.x, p + ".x", o); flatTangent(x.dx, p + ".dx", o);
}
inline void fill(mc::math::TwoJet<double>& x, Rng& r) { fill(x.x, r); fillTangent(x.dx, r); fillTangent(x.d2x, r); }
inline void flat(const mc::math::TwoJet<double>& x, const std::string& p, Leaves& o, bool = false)
{
    flat(x.x, p + ".x", o); flatTangent(x.dx, p + ".dx", o); flatTangent(x.d2x, p + ".d2x", o);
}

inline bool sameLeaf(const Leaf& a, const Leaf& b)
{
    if (a.path != b.path || a.type != b.type || a.count != b.count || a.bytes.size() != b.bytes.size()) return false;
    if (a.bytes == b.bytes) return true;
    if (!a.approx) return false;
    for (int k = 0; k < a.count; ++k)
    {
        double x, y;
        memcpy(&x, &a.bytes[k * 8], 8);
        memcpy(&y, &b.bytes[k * 8], 8);
        double scale = 1;
        for (int j = 0; j < a.count; ++j) { double z; memcpy(&z, &a.bytes[j * 8], 8); scale = std::max(scale, std::fabs(z)); }
        if (!(std::fabs(x - y) <= 1e-9 * scale)) return false;
    }
    return true;
}
inline std::string diff(const Leaves& a, const Leaves& b)
{
    if (a.size() != b.size()) return "different number of fields";
    for (size_t k = 0; k < a.size(); ++k)
        if (!sameLeaf(a[k], b[k])) return a[k].path;
    return "";
}
inline size_t leafBytes(const Leaves& l)
{
    size_t n = 0;
    for (auto& x : l) n += x.bytes.size();
    return n;
}

// ---- a stream type
struct TypeOps
{
    std::string name;
    std::function<void(mc::logging::Logger&, int)> init;
    // logs a record; t == nullptr: stamped with the present time
    std::function<void(mc::logging::Logger&, int, const mc::UTCTime*, uint64_t)> log;
    std::function<Leaves(uint64_t)> make;
    std::function<bool(mc::logging::StreamReader&, Leaves&)> read;
    size_t bytes;  // size of a record on disk, its time stamp included
};

template <typename Tuple, size_t... I>
Leaves makeLeaves(Tuple& x, const std::vector<std::string>& names, std::index_sequence<I...>)
{
    Leaves o;
    int d[] = {(flat(std::get<I>(x), names[I], o), 1)...};
    (void)d;
    return o;
}
template <typename Tuple, size_t... I>
void fillAll(Tuple& x, uint64_t seed, std::index_sequence<I...>)
{
    Rng r(seed);
    int d[] = {(fill(std::get<I>(x), r), 1)...};
    (void)d;
}
template <typename... T>
TypeOps mk(const std::string& name, const std::array<std::string, sizeof...(T)>& names)
{
    using Tuple = std::tuple<T...>;
    using Seq = std::index_sequence_for<T...>;
    const std::vector<std::string> n(names.begin(), names.end());
    TypeOps o;
    o.name = name;
    o.init = [names](mc::logging::Logger& l, int key) { l.initStream<T...>(key, names); };
    o.log = [](mc::logging::Logger& l, int key, const mc::UTCTime* t, uint64_t seed) {
        Tuple x;
        fillAll(x, seed, Seq{});
        if (t)
            std::apply([&](auto&... a) { l.log<T...>(key, *t, a...); }, x);
        else
            std::apply([&](auto&... a) { l.logStamped<T...>(key, a...); }, x);
    };
    o.make = [n](uint64_t seed) {
        Tuple x;
        fillAll(x, seed, Seq{});
        return makeLeaves(x, n, Seq{});
    };
    o.read = [n](mc::logging::StreamReader& rd, Leaves& out) {
        Tuple x;
        const bool ok = std::apply([&](auto&... a) { return rd.get(a...); }, x);
        out = makeLeaves(x, n, Seq{});
        return ok;
    };
    o.bytes = 16 + leafBytes(o.make(1));
    return o;
}

inline const std::vector<TypeOps>& types()
{
    using namespace mc;
    static const std::vector<TypeOps> t = {
        mk<double, float, int32_t, int64_t, uint8_t>("scalars", {"a", "b", "c", "d", "e"}),
        mk<int16_t, int8_t, uint64_t, uint32_t, uint16_t>("ints", {"i16", "i8", "u64", "u32", "u16"}),
        mk<Vec3, Eigen::Matrix<float, 3, 4>, Eigen::Matrix<int32_t, 2, 2>>("matrices", {"v", "m", "n"}),
        mk<meas::ImuSample>("imu", {"imu"}),
        mk<meas::GnssObservation>("obs", {"obs"}),
        mk<ephemeris::GPSEphemeris>("gps", {"eph"}),
        mk<ephemeris::GalileoEphemeris>("gal", {"eph"}),
        mk<ephemeris::GlonassEphemeris>("glo", {"eph"}),
        mk<math::Quat<double>, UTCTime>("quat", {"q", "when"}),
        mk<math::DQuat<double>, Vec2>("dquat", {"T", "clk"}),
        mk<math::Jet<double>>("jet", {"jet"}),
        mk<math::TwoJet<double>, math::DQuat<double>, Vec2>("truth", {"pose", "T_e2g", "clk"}),
        mk<Eigen::Matrix<double, 21, 21>>("cov", {"cov"}),
        mk<uint8_t>("byte", {"b"}),
        mk<ephemeris::GPSEphemeris, meas::ImuSample, ephemeris::GlonassEphemeris, double,
           ephemeris::GalileoEphemeris>("mixed", {"g", "imu", "r", "x", "e"}),
        mk<Eigen::Matrix<float, 40, 60>>("big", {"image"}),
        mk<double, int32_t, Vec3, Eigen::Matrix<double, 1, 4>>("names", {"type", "rows", "cols", "key"}),
    };
    return t;
}
}  // namespace logt
