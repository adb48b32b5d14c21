// The receiver's wire format, written from its definition: B5 62 class id length(2, little endian)
// payload ck_a ck_b with the 8-bit Fletcher checksum over class..payload.
#pragma once
#include <cstdint>
#include <vector>
#include "core.h"

namespace ubxw {
using Bytes = std::vector<uint8_t>;

inline void sum(const uint8_t* p, size_t n, uint8_t& a, uint8_t& b)
{
    a = b = 0;
    for (size_t k = 0; k < n; ++k) { a = (uint8_t)(a + p[k]); b = (uint8_t)(b + a); }
}
inline bool valid(const uint8_t* f, size_t n)
{
    if (n < 8 || f[0] != 0xB5 || f[1] != 0x62 || (size_t)(f[4] | f[5] << 8) + 8 != n) return false;
    uint8_t a, b;
    sum(f + 2, n - 4, a, b);
    return a == f[n - 2] && b == f[n - 1];
}
inline void append(Bytes& out, uint8_t cls, uint8_t id, const Bytes& payload)
{
    const size_t at = out.size();
    out.push_back(0xB5); out.push_back(0x62); out.push_back(cls); out.push_back(id);
    out.push_back((uint8_t)(payload.size() & 0xFF)); out.push_back((uint8_t)(payload.size() >> 8));
    out.insert(out.end(), payload.begin(), payload.end());
    uint8_t a, b;
    sum(&out[at + 2], payload.size() + 4, a, b);
    out.push_back(a); out.push_back(b);
}
// mode 1 random; 2 start patterns inside; 3 no B5 at all; 4 complete frames inside; 5 no B5 and no 62
inline Bytes payload(size_t n, uint64_t seed, int mode)
{
    dst::Rng r(seed);
    Bytes b(n);
    for (auto& x : b) x = (uint8_t)r.below(256);
    if (mode == 2)
        for (size_t k = 0; k + 1 < n; ++k)
            if (r.chance(0.1)) { b[k] = 0xB5; b[k + 1] = r.chance(0.8) ? 0x62 : 0xB5; }
    if (mode == 3 || mode == 5)
        for (auto& x : b)
            if (x == 0xB5 || (mode == 5 && x == 0x62)) x = 0x11;
    if (mode == 4 && n >= 8)
    {
        Bytes in;
        while (in.size() + 8 <= n) append(in, (uint8_t)r.below(16), (uint8_t)r.below(32), Bytes(std::min<size_t>(r.below(6), n - in.size() - 8), 7));
        const size_t off = n - in.size();
        std::copy(in.begin(), in.end(), b.begin() + (off ? r.below(off + 1) : 0));
    }
    return b;
}
}  // namespace ubxw
