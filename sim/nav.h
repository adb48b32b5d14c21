// Navigation messages as the satellites broadcast them, written from the interface definitions
// (IS-GPS-200 LNAV, Galileo OS SIS ICD I/NAV, GLONASS ICD) in the packing receivers deliver them in.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <vector>

#include "core.h"
#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"

namespace nav {
using dst::Rng;
using Bytes = std::vector<uint8_t>;
namespace ep = mc::ephemeris;

inline void put(uint8_t* b, int pos, int len, uint64_t v)
{
    for (int k = 0; k < len; ++k)
    {
        const int bit = pos + k;
        const uint8_t m = (uint8_t)(0x80 >> (bit & 7));
        if (v >> (len - 1 - k) & 1) b[bit / 8] |= m;
        else b[bit / 8] &= (uint8_t)~m;
    }
}
inline void put(Bytes& b, int pos, int len, int64_t v) { put(b.data(), pos, len, (uint64_t)v); }
// a raw value of a field, extremes included
inline int64_t rawU(Rng& r, int bits)
{
    const uint64_t top = (1ull << bits) - 1;
    if (r.chance(0.06)) return 0;
    if (r.chance(0.06)) return (int64_t)top;
    return (int64_t)(r.u64() & top);
}
inline int64_t rawS(Rng& r, int bits)
{
    const int64_t h = 1ll << (bits - 1);
    if (r.chance(0.06)) return -h;
    if (r.chance(0.06)) return h - 1;
    if (r.chance(0.06)) return r.range(-1, 1);
    return (int64_t)(r.u64() & (2 * (uint64_t)h - 1)) - h;
}
// sign and magnitude
inline int64_t rawG(Rng& r, int bits)
{
    const int64_t h = (1ll << (bits - 1)) - 1;
    if (r.chance(0.06)) return -h;
    if (r.chance(0.06)) return h;
    return r.range(-h, h);
}
inline void putG(Bytes& b, int pos, int len, int64_t v)
{
    put(b, pos, 1, v < 0);
    put(b, pos + 1, len - 1, v < 0 ? -v : v);
}
inline Bytes words(const Bytes& stream)  // bytes in transmission order -> little-endian 32-bit words
{
    Bytes out;
    for (size_t w = 0; w + 4 <= stream.size(); w += 4)
        for (int j = 3; j >= 0; --j) out.push_back(stream[w + j]);
    return out;
}
inline bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-12 * std::fabs(b); }

struct Diff
{
    std::string what;
    void num(const char* name, double got, double want)
    {
        if (what.empty() && !near(got, want))
        {
            char b[200];
            snprintf(b, sizeof b, "%s is %.17g, broadcast %.17g", name, got, want);
            what = b;
        }
    }
    // a field whose last bits may come from the wrong place (known finding "galileo-tail")
    bool tail = false;
    void num2(const char* name, double got, double want, double other)
    {
        if (!near(got, want) && near(got, other)) tail = true;
        else num(name, got, want);
    }
    void time(const char* name, const mc::UTCTime& got, int64_t sec)
    {
        if (what.empty() && (got.sec != sec || got.nsec != 0))
        {
            char b[200];
            snprintf(b, sizeof b, "%s is %lld.%09lld, broadcast %lld", name, (long long)got.sec, (long long)got.nsec, (long long)sec);
            what = b;
        }
    }
};

// ------------------------------------------------------------------ GPS
struct Gps
{
    using Eph = ep::GPSEphemeris;
    static constexpr int N = 3;
    static constexpr size_t SIZE = 40;
    int sat;
    int64_t week, tow6, l2, ura, health, iodc, l2p, tgd, toc, af2, af1, af0;
    int64_t crs, dn, m0, cuc, ecc, cus, sqrta, toe, fit;
    int64_t cic, om0, cis, i0, crc, w, omd, idot;
    int64_t toe_abs, toc_abs;  // GPS seconds
    int code() const { return (int)(iodc & 0xFF); }

    // at: GPS seconds of transmission
    static Gps make(Rng& r, int sat, int64_t at, int code)
    {
        Gps e;
        e.sat = sat;
        e.week = at / 604800;
        e.tow6 = at % 604800 / 6;
        auto ref = [&](int64_t& s, int64_t& abs) {
            abs = (at + r.range(-7200, 7200)) / 16 * 16;
            s = abs % 604800 / 16;
            abs = abs / 604800 * 604800 + s * 16;
        };
        ref(e.toe, e.toe_abs);
        if (r.chance(0.7)) { e.toc = e.toe; e.toc_abs = e.toe_abs; }
        else ref(e.toc, e.toc_abs);
        e.iodc = code | (int64_t)r.below(4) << 8;
        e.l2 = r.below(4); e.ura = r.below(16); e.health = rawU(r, 6); e.l2p = r.below(2);
        e.tgd = rawS(r, 8); e.af2 = rawS(r, 8); e.af1 = rawS(r, 16); e.af0 = rawS(r, 22);
        e.crs = rawS(r, 16); e.dn = rawS(r, 16); e.m0 = rawS(r, 32); e.cuc = rawS(r, 16); e.ecc = rawU(r, 32);
        e.cus = rawS(r, 16); e.sqrta = rawU(r, 32); e.fit = r.below(2);
        e.cic = rawS(r, 16); e.om0 = rawS(r, 32); e.cis = rawS(r, 16); e.i0 = rawS(r, 32); e.crc = rawS(r, 16);
        e.w = rawS(r, 32); e.omd = rawS(r, 24); e.idot = rawS(r, 14);
        return e;
    }
    static Bytes pack(const Bytes& f, Rng& r)
    {
        Bytes out;
        for (int k = 0; k < 10; ++k)
        {
            uint32_t d = (uint32_t)f[3 * k] << 16 | (uint32_t)f[3 * k + 1] << 8 | f[3 * k + 2];
            uint32_t x = d << 6 | (uint32_t)r.below(64) | (uint32_t)r.below(4) << 30;
            for (int j = 0; j < 4; ++j) out.push_back((uint8_t)(x >> (8 * j)));
        }
        return out;
    }
    Bytes frame(int id, Rng& r, int preamble = 0x8B) const
    {
        Bytes f(30);
        for (auto& x : f) x = (uint8_t)r.below(256);
        put(f, 0, 8, preamble);
        put(f, 24, 17, tow6 + (id - 1));
        put(f, 43, 3, id);
        if (id == 1)
        {
            put(f, 48, 10, week & 1023); put(f, 58, 2, l2); put(f, 60, 4, ura); put(f, 64, 6, health);
            put(f, 70, 2, iodc >> 8); put(f, 72, 1, l2p); put(f, 160, 8, tgd); put(f, 168, 8, iodc & 255);
            put(f, 176, 16, toc); put(f, 192, 8, af2); put(f, 200, 16, af1); put(f, 216, 22, af0);
        }
        if (id == 2)
        {
            put(f, 48, 8, code()); put(f, 56, 16, crs); put(f, 72, 16, dn); put(f, 88, 32, m0); put(f, 120, 16, cuc);
            put(f, 136, 32, ecc); put(f, 168, 16, cus); put(f, 184, 32, sqrta); put(f, 216, 16, toe); put(f, 232, 1, fit);
        }
        if (id == 3)
        {
            put(f, 48, 16, cic); put(f, 64, 32, om0); put(f, 96, 16, cis); put(f, 112, 32, i0); put(f, 144, 16, crc);
            put(f, 160, 32, w); put(f, 192, 24, omd); put(f, 216, 8, code()); put(f, 224, 14, idot);
        }
        return pack(f, r);
    }
    std::string compare(const Eph& e) const
    {
        Diff d;
        const double pi = 3.14159265358979323846;
        d.num("gnss", e.gnssID, mc::GnssID::GPS); d.num("sat", e.sat, sat);
        d.num("week", e.week, (double)(2048 + (week & 1023)));
        d.num("code on L2", e.code_on_L2, l2); d.num("accuracy", e.ura, ura); d.num("health", e.health, health);
        d.num("iodc", e.iodc, iodc); d.num("iode", e.iode, code()); d.num("L2 P flag", e.L2_P_data_flag, l2p);
        d.num("tgd", e.tgd, tgd == -128 ? 0 : std::ldexp(tgd, -31));
        d.num("toc", e.tocs, toc * 16); d.num("af2", e.af2, std::ldexp(af2, -55)); d.num("af1", e.af1, std::ldexp(af1, -43)); d.num("af0", e.af0, std::ldexp(af0, -31));
        d.num("crs", e.crs, std::ldexp(crs, -5)); d.num("delta n", e.delta_n, std::ldexp(dn, -43) * pi); d.num("m0", e.m0, std::ldexp(m0, -31) * pi);
        d.num("cuc", e.cuc, std::ldexp(cuc, -29)); d.num("ecc", e.ecc, std::ldexp(ecc, -33)); d.num("cus", e.cus, std::ldexp(cus, -29));
        d.num("sqrt a", e.sqrta, std::ldexp(sqrta, -19)); d.num("toe", e.toes, toe * 16); d.num("fit interval", e.fit_interval_flag, fit ? 0 : 4);
        d.num("cic", e.cic, std::ldexp(cic, -29)); d.num("omega0", e.omega0, std::ldexp(om0, -31) * pi); d.num("cis", e.cis, std::ldexp(cis, -29));
        d.num("i0", e.i0, std::ldexp(i0, -31) * pi); d.num("crc", e.crc, std::ldexp(crc, -5)); d.num("w", e.w, std::ldexp(w, -31) * pi);
        d.num("omega dot", e.omegadot, std::ldexp(omd, -43) * pi); d.num("idot", e.idot, std::ldexp(idot, -43) * pi);
        const int64_t off = mc::UTCTime::GPS_UTC_OFFSET;
        d.time("time of ephemeris", e.toe, toe_abs + off);
        d.time("time of clock", e.toc, toc_abs + off);
        return d.what;
    }
};

// ------------------------------------------------------------------ Galileo
inline uint32_t crc24q(const uint8_t* b, int bits)
{
    uint32_t c = 0;
    for (int k = 0; k < bits; ++k)
    {
        const uint32_t in = b[k / 8] >> (7 - (k & 7)) & 1;
        const uint32_t top = c >> 23 & 1;
        c = c << 1 & 0xFFFFFF;
        if (in ^ top) c ^= 0x864CFB;
    }
    return c;
}
struct Gal
{
    using Eph = ep::GalileoEphemeris;
    static constexpr int N = 6;  // words 0..5
    static constexpr size_t SIZE = 32;
    int sat;
    int64_t iod, wn, tow;                           // week and time of word 0
    int64_t toe, m0, ecc, sqrta;                    // 1
    int64_t om0, i0, w, idot;                       // 2
    int64_t omd, dn, cuc, cus, crc, crs;            // 3
    int64_t cic, cis, toc, af0, af1, af2;           // 4
    int64_t bgda, bgdb, e5bhs, e1bhs, e5bdvs, e1bdvs;  // 5
    int64_t toe_abs, toc_abs;                       // GPS seconds
    int code() const { return (int)iod; }

    static Gal make(Rng& r, int sat, int64_t at, int code)
    {
        Gal e;
        e.sat = sat;
        e.iod = code;
        e.wn = at / 604800 - 1024;
        e.tow = at % 604800;
        e.toe_abs = (at + r.range(-7200, 7200)) / 60 * 60;
        const int64_t w0 = e.toe_abs / 604800 * 604800;
        e.toe = (e.toe_abs - w0) / 60;
        e.toe_abs = w0 + e.toe * 60;
        e.toc = r.chance(0.7) ? e.toe : (int64_t)r.below(10080);
        e.toc_abs = w0 + e.toc * 60;
        e.m0 = rawS(r, 32); e.ecc = rawU(r, 32); e.sqrta = rawU(r, 32);
        e.om0 = rawS(r, 32); e.i0 = rawS(r, 32); e.w = rawS(r, 32); e.idot = rawS(r, 14);
        e.omd = rawS(r, 24); e.dn = rawS(r, 16); e.cuc = rawS(r, 16); e.cus = rawS(r, 16); e.crc = rawS(r, 16); e.crs = rawS(r, 16);
        e.cic = rawS(r, 16); e.cis = rawS(r, 16); e.af0 = rawS(r, 31); e.af1 = rawS(r, 21); e.af2 = rawS(r, 6);
        e.bgda = rawS(r, 10); e.bgdb = rawS(r, 10);
        e.e5bhs = r.below(4); e.e1bhs = r.below(4); e.e5bdvs = r.below(2); e.e1bdvs = r.below(2);
        return e;
    }
    // alert: page type bits; odd: part bits
    Bytes frame(int type, Rng& r, int svid = -1, bool alert = false, bool parts = true) const
    {
        Bytes d(16);
        for (auto& x : d) x = (uint8_t)r.below(256);
        put(d, 0, 6, type);
        if (type == 0) { put(d, 6, 2, 2); put(d, 96, 12, wn); put(d, 108, 20, tow); }
        if (type >= 1 && type <= 4) put(d, 6, 10, iod);
        if (type == 1) { put(d, 16, 14, toe); put(d, 30, 32, m0); put(d, 62, 32, ecc); put(d, 94, 32, sqrta); }
        if (type == 2) { put(d, 16, 32, om0); put(d, 48, 32, i0); put(d, 80, 32, w); put(d, 112, 14, idot); }
        if (type == 3) { put(d, 16, 24, omd); put(d, 40, 16, dn); put(d, 56, 16, cuc); put(d, 72, 16, cus); put(d, 88, 16, crc); put(d, 104, 16, crs); }
        if (type == 4) { put(d, 16, 6, svid < 0 ? sat : svid); put(d, 22, 16, cic); put(d, 38, 16, cis); put(d, 54, 14, toc); put(d, 68, 31, af0); put(d, 99, 21, af1); put(d, 120, 6, af2); }
        if (type == 5) { put(d, 47, 10, bgda); put(d, 57, 10, bgdb); put(d, 67, 2, e5bhs); put(d, 69, 2, e1bhs); put(d, 71, 1, e5bdvs); put(d, 72, 1, e1bdvs); put(d, 73, 12, wn); put(d, 85, 20, tow); }
        Bytes s(32);
        for (auto& x : s) x = (uint8_t)r.below(256);
        auto bit = [&](int k) { return (int64_t)(d[k / 8] >> (7 - (k & 7)) & 1); };
        put(s, 0, 1, parts ? 0 : 1);
        put(s, 1, 1, alert ? 1 : 0);
        for (int k = 0; k < 112; ++k) put(s, 2 + k, 1, bit(k));
        put(s, 128, 1, 1);
        put(s, 129, 1, alert ? 1 : 0);
        for (int k = 0; k < 16; ++k) put(s, 130 + k, 1, bit(112 + k));
        sealCrc(s);
        return words(s);
    }
    static void sealCrc(Bytes& s)
    {
        Bytes c(25);
        for (int k = 0; k < 114; ++k) put(c, k, 1, s[k / 8] >> (7 - (k & 7)) & 1);
        for (int k = 0; k < 82; ++k) put(c, 114 + k, 1, s[(128 + k) / 8] >> (7 - (k & 7)) & 1);
        put(s, 128 + 82, 24, crc24q(c.data(), 196));
    }
    // is this bit (in transmission order) protected by the checksum?
    static bool covered(int bit) { return bit < 114 || (bit >= 128 && bit < 128 + 82 + 24); }
    // time words: week and time of the last word 0; last: which issue's word 5 was last
    // tails: the sixteen bits found where the parser looks for the last sixteen data bits of each word
    static int64_t sx(int64_t v, int bits) { return v & 1ll << (bits - 1) ? v - (1ll << bits) : v; }
    static uint16_t tailOf(const Bytes& frame)
    {
        Bytes t = words(frame);
        uint16_t v = 0;
        for (int k = 234; k < 250; ++k) v = (uint16_t)(v << 1 | (t[k / 8] >> (7 - (k & 7)) & 1));
        return v;
    }
    std::string compare(const Eph& e, const Gal& t0, const Gal& last5, const uint16_t* tails, bool& tail) const
    {
        Diff d;
        const double pi = 3.14159265358979323846;
        d.num("gnss", e.gnssID, mc::GnssID::Galileo); d.num("sat", e.sat, sat);
        d.num("issue", e.iodc, iod); d.num("toe", e.toes, toe * 60);
        d.num("m0", e.m0, std::ldexp(m0, -31) * pi); d.num("ecc", e.ecc, std::ldexp(ecc, -33)); d.num2("sqrt a", e.sqrta, std::ldexp(sqrta, -19), std::ldexp((sqrta & ~0x3FFFll) | tails[1] >> 2, -19));
        d.num("omega0", e.omega0, std::ldexp(om0, -31) * pi); d.num("i0", e.i0, std::ldexp(i0, -31) * pi); d.num("w", e.w, std::ldexp(w, -31) * pi); d.num2("idot", e.idot, std::ldexp(idot, -43) * pi, std::ldexp(sx(tails[2] >> 2, 14), -43) * pi);
        d.num("omega dot", e.omegadot, std::ldexp(omd, -43) * pi); d.num("delta n", e.delta_n, std::ldexp(dn, -43) * pi);
        d.num("cuc", e.cuc, std::ldexp(cuc, -29)); d.num("cus", e.cus, std::ldexp(cus, -29)); d.num("crc", e.crc, std::ldexp(crc, -5)); d.num2("crs", e.crs, std::ldexp(crs, -5), std::ldexp(sx((crs & 0xFF00) | tails[3] >> 8, 16), -5));
        d.num("cic", e.cic, std::ldexp(cic, -29)); d.num("cis", e.cis, std::ldexp(cis, -29)); d.num("toc", e.tocs, toc * 60);
        d.num("af0", e.af0, std::ldexp(af0, -34)); d.num2("af1", e.af1, std::ldexp(af1, -46), std::ldexp(sx((af1 & 0x1FFF00) | tails[4] >> 8, 21), -46));
        d.num2("af2", e.af2, std::ldexp(af2, -59), std::ldexp(sx(tails[4] >> 2 & 0x3F, 6), -59));
        d.num("group delay E1-E5a", e.bgd_e1_e5a, std::ldexp(last5.bgda, -32)); d.num("group delay E1-E5b", e.bgd_e1_e5b, std::ldexp(last5.bgdb, -32));
        d.num("E5b health", e.e5b_hs, last5.e5bhs); d.num("E1-B health", e.e1b_hs, last5.e1bhs);
        d.num("E5b validity", e.e5b_dvs, last5.e5bdvs); d.num("E1-B validity", e.e1b_dvs, last5.e1bdvs);
        // the reference times are within half a week of the time word 0 gave
        int64_t abs = (t0.wn + 1024) * 604800 + toe * 60;
        const int64_t at = (t0.wn + 1024) * 604800 + t0.tow;
        if (abs - at > 302400) abs -= 604800;
        if (abs - at < -302400) abs += 604800;
        const int64_t off = mc::UTCTime::GPS_UTC_OFFSET;
        d.num2("time of week", e.tow, (double)t0.tow, (double)((t0.tow & 0xF0000) | tails[0]));
        d.num("week", e.week, (double)(abs / 604800));
        d.time("time of ephemeris", e.toe, abs + off);
        d.time("time of clock", e.toc, abs - toe * 60 + toc * 60 + off);
        tail = d.tail;
        return d.what;
    }
};

// ------------------------------------------------------------------ GLONASS
struct Glo
{
    using Eph = ep::GlonassEphemeris;
    static constexpr int N = 5;  // strings 1..5
    static constexpr size_t SIZE = 16;
    int sat;
    int64_t mark;                       // number of the super-frame
    int64_t tk_h, tk_m, tk_s;           // 1
    int64_t v[3], a[3], p[3];           // 1..3
    int64_t bn, tb;                     // 2
    int64_t gam;                        // 3
    int64_t tau, dtau, en, ft, nt, n;   // 4
    int64_t na, n4;                     // 5
    int code() const { return (int)mark; }

    // at: seconds of UTC+3h since 1996-01-01
    static Glo make(Rng& r, int sat, int64_t at, int mark)
    {
        Glo e;
        e.sat = sat;
        e.mark = mark;
        const int64_t quad = 1461 * 86400ll;
        e.n4 = at / quad + 1;
        const int64_t day = at % quad / 86400, s = at % 86400;
        e.nt = day + 1;
        // the almanac's day may lag
        e.na = r.chance(0.7) || day == 0 ? e.nt : day;
        e.tk_h = s / 3600; e.tk_m = s / 60 % 60; e.tk_s = s % 60 / 30;
        e.tb = r.range(1, 95);
        for (int k = 0; k < 3; ++k) { e.v[k] = rawG(r, 24); e.a[k] = rawG(r, 5); e.p[k] = rawG(r, 27); }
        e.bn = r.below(8); e.gam = rawG(r, 11); e.tau = rawG(r, 22); e.dtau = rawG(r, 5); e.en = rawU(r, 5);
        e.ft = r.below(16); e.n = r.range(1, 24);
        return e;
    }
    void tick(int64_t half_minutes)
    {
        int64_t s = (tk_h * 3600 + tk_m * 60 + tk_s * 30 + 30 * half_minutes) % 86400;
        tk_h = s / 3600; tk_m = s / 60 % 60; tk_s = s % 60 / 30;
    }
    Bytes frame(int k, Rng& r) const
    {
        Bytes b(16);
        for (auto& x : b) x = (uint8_t)r.below(256);
        put(b, 0, 1, 0);
        put(b, 1, 4, k);
        if (k >= 1 && k <= 3)
        {
            putG(b, 21, 24, v[k - 1]); putG(b, 45, 5, a[k - 1]); putG(b, 50, 27, p[k - 1]);
        }
        if (k == 1) { put(b, 9, 5, tk_h); put(b, 14, 6, tk_m); put(b, 20, 1, tk_s); }
        if (k == 2) { put(b, 5, 3, bn); put(b, 9, 7, tb); }
        if (k == 3) putG(b, 6, 11, gam);
        if (k == 4) { putG(b, 5, 22, tau); putG(b, 27, 5, dtau); put(b, 32, 5, en); put(b, 52, 4, ft); put(b, 59, 11, nt); put(b, 70, 5, n); }
        if (k == 5) { put(b, 5, 11, na); put(b, 49, 5, n4); }
        put(b, 77, 8, 0);
        // check bits (ICD 4.7)
        static const uint8_t mask[7][11] = {
            {0x55, 0x55, 0x5a, 0xaa, 0xaa, 0xaa, 0xb5, 0x55, 0x6a, 0xd8, 0x08}, {0x66, 0x66, 0x6c, 0xcc, 0xcc, 0xcc, 0xd9, 0x99, 0xb3, 0x68, 0x10},
            {0x87, 0x87, 0x8f, 0x0f, 0x0f, 0x0f, 0x1e, 0x1e, 0x3c, 0x70, 0x20}, {0x07, 0xf8, 0x0f, 0xf0, 0x0f, 0xf0, 0x1f, 0xe0, 0x3f, 0x80, 0x40},
            {0xf8, 0x00, 0x0f, 0xff, 0xf0, 0x00, 0x1f, 0xff, 0xc0, 0x00, 0x80}, {0x00, 0x00, 0x0f, 0xff, 0xff, 0xff, 0xe0, 0x00, 0x00, 0x01, 0x00},
            {0xff, 0xff, 0xf0, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x02, 0x00}};
        for (int i = 0; i < 7; ++i)
        {
            int par = 0;
            for (int j = 0; j < 11; ++j) par ^= __builtin_parity(b[j] & mask[i][j]);
            put(b, 84 - i, 1, par);
        }
        int all = 0;
        for (int j = 0; j < 10; ++j) all ^= __builtin_parity(b[j]);
        all ^= __builtin_parity(b[10] & 0xF8);
        put(b, 77, 1, all);
        put(b, 96, 16, mark);
        return words(b);
    }
    std::string compare(const Eph& e, const Glo& t1) const
    {
        Diff d;
        d.num("gnss", e.gnssID, mc::GnssID::Glonass); d.num("sat", e.sat, sat);
        for (int k = 0; k < 3; ++k)
        {
            d.num("velocity", e.vel[k], std::ldexp(v[k], -20) * 1e3);
            d.num("acceleration", e.acc[k], std::ldexp(a[k], -30) * 1e3);
            d.num("position", e.pos[k], std::ldexp(p[k], -11) * 1e3);
        }
        d.num("health", e.svh, bn); d.num("issue", e.iode, tb); d.num("frequency bias", e.gamn, std::ldexp(gam, -40));
        d.num("clock bias", e.taun, std::ldexp(tau, -30)); d.num("delay", e.dtaun, std::ldexp(dtau, -30)); d.num("age", e.age, en);
        d.num("accuracy", e.sva, ft); d.num("slot", e.slot, n);
        const int64_t day = 820454400 - 3 * 3600 + ((n4 - 1) * 1461 + nt - 1) * 86400ll;
        d.time("time of ephemeris", e.toe, day + tb * 900);
        d.time("time of frame", e.tof, day + t1.tk_h * 3600 + t1.tk_m * 60 + t1.tk_s * 30);
        return d.what;
    }
};
}  // namespace nav
