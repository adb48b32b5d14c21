// Simulations of the receiver link (C08-C10): the repository's parser and protocol code run for real
// over a simulated serial line and clock.
#include <algorithm>
#include <memory>
#include <new>

#include "core.h"
#include "async_comm/comm.h"
#include "parsers/ubx/ubx.h"
#include "ubx_wire.h"

using namespace dst;
namespace ub = mc::parsers::ublox;
using ubxw::Bytes;

namespace {

struct Rec : ub::UbxListener
{
    int id;
    std::function<void(int, uint8_t, uint8_t, const ub::UbxMessage&)> fn;
    Rec(int i, std::function<void(int, uint8_t, uint8_t, const ub::UbxMessage&)> f) : id(i), fn(f) {}
    void gotUbx(const uint8_t cls, const uint8_t mid, const ub::UbxMessage& m) override { fn(id, cls, mid, m); }
};

const size_t MAXLEN = sizeof(ub::UbxMessage::buffer);

int64_t genLen(Rng& rng)
{
    switch (rng.below(8))
    {
    case 0: return 0;
    case 1: return rng.range(1, 3);
    case 2: return rng.range(4, 60);
    case 3: return rng.chance(0.3) ? (int64_t)MAXLEN : (int64_t)rng.range(1, 40);
    case 4: return rng.chance(0.3) ? (int64_t)MAXLEN - rng.range(0, 3) : 255 + rng.range(0, 2);
    default: return rng.range(1, rng.chance(0.1) ? 1200 : 90);
    }
}
const int CLS[] = {0x01, 0x02, 0x05, 0x06, 0x0A, 0x13, 0xF5, 0xB5, 0x62, 0x00, 0xFF};
const int IDS[] = {0x00, 0x01, 0x04, 0x07, 0x13, 0x15, 0x62, 0xB5, 0xFF};

struct Sent
{
    uint8_t cls, id;
    Bytes payload;
    size_t start;  // offset in the stream
    int table;     // listeners registered before
};

struct Stream
{
    Bytes bytes;
    std::vector<Sent> sent;                       // intact frames
    std::vector<std::pair<size_t, int>> lis;      // (offset, listener op index)
    size_t last_fault = 0;                        // offset just past the last corrupted byte
    bool unsafe = false;                          // framing may be lost
    int n_listeners = 0;
};

// A plan's operations -> the bytes on the line.
Stream build(const Plan& plan, Run& run)
{
    Stream s;
    bool have = false;
    size_t fstart = 0;
    auto corrupted = [&]() {
        if (have && !s.sent.empty() && s.sent.back().start == fstart) s.sent.pop_back();
        s.last_fault = s.bytes.size();
    };
    for (auto& op : plan.ops)
    {
        if (op.name == "listener")
        {
            s.lis.push_back({s.bytes.size(), s.n_listeners++});
            have = false;
        }
        else if (op.name == "frame")
        {
            Sent f;
            f.cls = (uint8_t)op.i(0);
            f.id = (uint8_t)op.i(1);
            f.payload = ubxw::payload(op.u(2) % (MAXLEN + 1), op.u(3), (int)op.i(4));
            f.start = s.bytes.size();
            f.table = s.n_listeners;
            fstart = f.start;
            ubxw::append(s.bytes, f.cls, f.id, f.payload);
            s.sent.push_back(f);
            have = true;
        }
        else if (!have && (op.name == "flip" || op.name == "drop" || op.name == "insert" || op.name == "dup" || op.name == "trunc" || op.name == "swap"))
            continue;
        else if (op.name == "flip")
        {
            // where: 0 class, 1 id, 2 payload or checksum, 3 checksum, 4 anything
            const size_t n = s.bytes.size() - fstart;
            size_t off;
            switch (op.i(0))
            {
            case 0: off = 2; break;
            case 1: off = 3; break;
            case 2: off = 6 + op.u(1) % (n - 6); break;
            case 3: off = n - 1 - op.u(1) % 2; break;
            default: off = op.u(1) % n; s.unsafe = true; break;
            }
            // one bit only: a single-bit error never passes this checksum
            if (op.i(0) < 4 && s.last_fault > fstart) continue;
            s.bytes[fstart + off] ^= (uint8_t)(1u << (op.u(2) % 8));
            corrupted();
            run.fault("bit-flip");
        }
        else if (op.name == "drop")
        {
            const size_t n = s.bytes.size() - fstart, off = op.u(0) % n, k = std::min<size_t>(1 + op.u(1) % 20, n - off);
            s.bytes.erase(s.bytes.begin() + fstart + off, s.bytes.begin() + fstart + off + k);
            s.unsafe = true;
            corrupted();
            if (s.bytes.size() == fstart) have = false;
            run.fault("byte-loss", k);
        }
        else if (op.name == "insert")
        {
            const size_t n = s.bytes.size() - fstart, off = op.u(0) % (n + 1), k = 1 + op.u(1) % 12;
            Bytes x = ubxw::payload(k, op.u(2), 1);
            s.bytes.insert(s.bytes.begin() + fstart + off, x.begin(), x.end());
            s.unsafe = true;
            corrupted();
            run.fault("byte-insertion", k);
        }
        else if (op.name == "swap")
        {
            const size_t n = s.bytes.size() - fstart, a = op.u(0) % n, b = op.u(1) % n;
            std::swap(s.bytes[fstart + a], s.bytes[fstart + b]);
            s.unsafe = true;
            corrupted();
            run.fault("byte-reorder");
        }
        else if (op.name == "trunc")
        {
            const size_t n = s.bytes.size() - fstart, k = op.u(0) % n;
            s.bytes.resize(fstart + k);
            s.unsafe = true;
            corrupted();
            have = false;
            run.fault("truncated-frame");
        }
        else if (op.name == "dup")
        {
            // the whole frame arrives again
            const Bytes again(s.bytes.begin() + fstart, s.bytes.end());
            const bool intact = !s.sent.empty() && s.sent.back().start == fstart;
            const size_t at = s.bytes.size();
            s.bytes.insert(s.bytes.end(), again.begin(), again.end());
            if (intact)
            {
                Sent f = s.sent.back();
                f.start = at;
                s.sent.push_back(f);
            }
            else
                s.last_fault = s.bytes.size();
            fstart = at;
            run.fault("duplicate-frame");
        }
        else if (op.name == "noise")
        {
            // between frames; kind 0: bytes that cannot look like a start of frame; 1: anything
            Bytes x = ubxw::payload(op.u(0) % 3000, op.u(1), op.i(2) ? 2 : 3);
            if (!op.i(2) && !x.empty() && x[0] == 0x62) x[0] = 0;
            s.bytes.insert(s.bytes.end(), x.begin(), x.end());
            if (op.i(2)) s.unsafe = true;
            have = false;
            s.last_fault = s.bytes.size();
            run.fault("noise", (int64_t)x.size());
        }
        else if (op.name == "header")
        {
            // a lone header announcing a payload that never comes (possibly oversize)
            Bytes x{0xB5, 0x62, (uint8_t)op.i(0), (uint8_t)op.i(1), (uint8_t)(op.u(2) & 0xFF), (uint8_t)(op.u(2) >> 8)};
            s.bytes.insert(s.bytes.end(), x.begin(), x.end());
            s.unsafe = true;
            have = false;
            s.last_fault = s.bytes.size();
            run.fault("forged-length");
        }
    }
    return s;
}

struct Delivery
{
    int listener;
    uint8_t cls, id;
    size_t end;  // offset of the byte that completed the frame (first pass) or of the chunk's end
    Bytes payload;
};

struct LinkBase : Scenario
{
    // listener k's subscriptions
    static std::vector<std::pair<int, int>> table(const Plan& p, int k)
    {
        std::vector<std::pair<int, int>> t;
        int n = 0;
        for (auto& op : p.ops)
            if (op.name == "listener")
            {
                if (n++ == k)
                    for (size_t i = 0; i + 1 < op.args.size(); i += 2) t.push_back({(int)op.i(i), (int)op.i(i + 1)});
            }
        return t;
    }

    // Feed the stream; in chunks given by the seed (0: byte by byte).
    std::vector<Delivery> feed(const Plan& plan, const Stream& s, uint64_t chunk_seed, Run& run, size_t& received,
                               const std::vector<size_t>* lens)
    {
        async_comm::Comm comm;
        // whatever the memory held before must not matter
        static std::vector<std::unique_ptr<std::vector<uint8_t>>> arena;
        arena.push_back(std::make_unique<std::vector<uint8_t>>(sizeof(ub::Ubx) + 64, chunk_seed ? 0xB5 : 0x42));
        uint8_t* mem = arena.back()->data();
        mem += (64 - (uintptr_t)mem % 64) % 64;
        ub::Ubx& ubx = *new (mem) ub::Ubx(comm);
        std::vector<std::unique_ptr<Rec>> recs;
        std::vector<Delivery> out;
        size_t pos = 0;
        auto got = [&](int k, uint8_t cls, uint8_t id, const ub::UbxMessage& m) {
            Delivery d{k, cls, id, pos, {}};
            if (out.size() > 4 * s.bytes.size() + 100) run.fail("no-progress", "more deliveries than bytes");
            size_t n = 0;
            if (!lens)
            {
                // Which frame is this?  One that ends here, found by looking backwards for a start whose
                // length field fits.
                const Bytes& b = s.bytes;
                const size_t e = pos;  // index of the last byte fed
                bool found = false;
                for (size_t len = 0; len <= MAXLEN && len + 8 <= e + 1; ++len)
                {
                    const size_t st = e + 1 - (len + 8);
                    if (b[st] != 0xB5 || b[st + 1] != 0x62 || b[st + 2] != cls || b[st + 3] != id) continue;
                    if ((size_t)(b[st + 4] | b[st + 5] << 8) != len) continue;
                    if (!ubxw::valid(&b[st], len + 8)) continue;
                    if (memcmp(m.buffer, &b[st + 6], len) != 0) continue;
                    n = len;
                    found = true;
                    break;
                }
                if (!found)
                    run.fail("fabricated", "frame %02x-%02x delivered at byte %zu, but no intact frame with this content ends there", cls, id, pos);
            }
            else
            {
                if (out.size() >= lens->size()) run.fail("chunking", "delivery %zu only happens with this chunking", out.size());
                n = (*lens)[out.size()];
            }
            d.payload.assign(m.buffer, m.buffer + n);
            out.push_back(d);
        };
        Rng cr(chunk_seed);
        size_t li = 0;
        const int mode = (int)cr.below(4);
        while (true)
        {
            while (li < s.lis.size() && s.lis[li].first <= pos)
            {
                recs.push_back(std::make_unique<Rec>(s.lis[li].second, got));
                for (auto& t : table(plan, s.lis[li].second)) recs.back()->subscribe((uint8_t)t.first, (uint8_t)t.second);
                ubx.registerListener(recs.back().get());
                ++li;
            }
            if (pos >= s.bytes.size()) break;
            size_t n = 1;
            if (chunk_seed)
                n = mode == 0 ? 1 + cr.below(4) : mode == 1 ? 1 + cr.below(64) : mode == 2 ? 1 + cr.below(5000) : (size_t)cr.below(9);
            n = std::min(n, s.bytes.size() - pos);
            if (li < s.lis.size()) n = std::min(n, s.lis[li].first - pos);
            // exactly sized, so that reading past the chunk is reading past the object
            std::unique_ptr<uint8_t[]> c(new uint8_t[n ? n : 1]);
            memcpy(c.get(), s.bytes.data() + pos, n);
            comm.deliver(c.get(), n);
            pos += n;
            run.ops();
        }
        received = ubx.numMessagesReceived();
        ubx.~Ubx();
        return out;
    }

    void checkAll(const Plan& plan, Run& run, bool exact, bool resync)
    {
        const Stream s = build(plan, run);
        size_t rec0 = 0, rec1 = 0;
        std::vector<Delivery> a = feed(plan, s, 0, run, rec0, nullptr);
        run.simTime((double)s.bytes.size() * 10.0 / 921600.0);
        // same-frame deliveries are adjacent; frames in increasing order of their ends, not overlapping
        size_t last_end = 0, last_len = 0;
        std::vector<size_t> lens;
        for (size_t k = 0; k < a.size(); ++k)
        {
            lens.push_back(a[k].payload.size());
            const size_t start = a[k].end + 1 - (a[k].payload.size() + 8);
            // (a byte B5 may be the last of one frame and the first of the next)
            if (k && a[k].end != last_end && start < last_end)
                run.fail("overlap", "frames ending at bytes %zu and %zu overlap", last_end, a[k].end);
            last_end = a[k].end;
            last_len = lens.back();
            // subscribed? once per listener?
            bool sub = false;
            for (auto& t : table(plan, a[k].listener)) sub |= t.first == a[k].cls && t.second == a[k].id;
            if (!sub) run.fail("unsubscribed", "listener %d got %02x-%02x without a subscription", a[k].listener, a[k].cls, a[k].id);
            for (size_t j = k; j-- > 0 && a[j].end == a[k].end;)
                if (a[j].listener == a[k].listener) run.fail("twice", "listener %d got the frame ending at %zu twice", a[k].listener, a[k].end);
            run.ev("%d %02x-%02x %zu", a[k].listener, a[k].cls, a[k].id, a[k].payload.size());
        }
        (void)last_len;
        // what had to be delivered
        auto require = [&](const Sent& f) {
            const size_t end = f.start + f.payload.size() + 7;
            for (int k = 0; k < f.table; ++k)
            {
                bool sub = false, got = false;
                for (auto& t : table(plan, k)) sub |= t.first == f.cls && t.second == f.id;
                for (auto& d : a) got |= d.end == end && d.listener == k && d.payload == f.payload;
                if (sub && !got)
                    run.fail("lost-frame", "listener %d did not get the intact frame %02x-%02x of %zu bytes at offset %zu (last corruption ended at %zu)",
                             k, f.cls, f.id, f.payload.size(), f.start, s.last_fault);
            }
        };
        size_t must = 0;
        for (auto& f : s.sent)
            if ((exact && !s.unsafe) || (resync && f.start >= s.last_fault + MAXLEN + 8) || s.last_fault == 0)
            {
                require(f);
                ++must;
            }
        if (exact && !s.unsafe)
        {
            size_t want = 0;
            for (auto& f : s.sent)
                for (int k = 0; k < f.table; ++k)
                {
                    bool sub = false;
                    for (auto& t : table(plan, k)) sub |= t.first == f.cls && t.second == f.id;
                    want += sub;
                }
            if (a.size() != want) run.fail("extra-frame", "%zu deliveries, %zu expected", a.size(), want);
            if (rec0 != s.sent.size()) run.fail("count", "%zu messages counted, %zu intact frames were sent", rec0, s.sent.size());
        }
        // cut differently: the same deliveries
        std::vector<Delivery> b = feed(plan, s, (uint64_t)plan.get("chunks", 1) | 1, run, rec1, &lens);
        if (b.size() != a.size() || rec0 != rec1)
            run.fail("chunking", "%zu deliveries byte by byte, %zu in larger chunks (%zu and %zu messages counted)", a.size(), b.size(), rec0, rec1);
        for (size_t k = 0; k < a.size(); ++k)
            if (a[k].listener != b[k].listener || a[k].cls != b[k].cls || a[k].id != b[k].id || a[k].payload != b[k].payload)
                run.fail("chunking", "delivery %zu differs when the bytes arrive in other chunks", k);
        if (must >= 2 && !run.faults.empty()) run.nontrivial();
        run.probe("frames-required", (int64_t)must);
        for (auto& f : s.sent) run.state(mix(f.payload.size(), mix(f.cls, f.id) % 97));
    }

    void genListeners(Rng& rng, Plan& p, std::vector<std::pair<int, int>>& keys, bool all)
    {
        Op& o = p.add("listener");
        const int n = (int)rng.range(0, 6);
        for (int k = 0; k < n; ++k)
        {
            std::pair<int, int> key = keys.empty() || rng.chance(0.3)
                ? std::make_pair(CLS[rng.below(11)], IDS[rng.below(9)]) : keys[rng.below(keys.size())];
            o.args.push_back(tok(key.first));
            o.args.push_back(tok(key.second));
        }
        if (all)
            for (auto& k : keys) { o.args.push_back(tok(k.first)); o.args.push_back(tok(k.second)); }
    }
    std::vector<std::pair<int, int>> genKeys(Rng& rng)
    {
        std::vector<std::pair<int, int>> keys{{2, 0x13}, {2, 0x15}};
        for (int k = 0; k < 4; ++k) keys.push_back({CLS[rng.below(11)], IDS[rng.below(9)]});
        return keys;
    }
    void genFrame(Rng& rng, Plan& p, const std::vector<std::pair<int, int>>& keys, int mode)
    {
        auto k = keys[rng.below(keys.size())];
        p.add("frame", {k.first, k.second, genLen(rng), (int64_t)(rng.u64() >> 2), mode});
    }
    void genUnsafe(Rng& rng, Plan& p)
    {
        switch (rng.below(8))
        {
        case 0: p.add("flip", {4, (int64_t)(rng.u64() >> 2), (int64_t)rng.below(8)}); break;
        case 1: p.add("drop", {(int64_t)(rng.u64() >> 2), (int64_t)rng.below(20)}); break;
        case 2: p.add("insert", {(int64_t)(rng.u64() >> 2), (int64_t)rng.below(12), (int64_t)(rng.u64() >> 2)}); break;
        case 3: p.add("swap", {(int64_t)(rng.u64() >> 2), (int64_t)(rng.u64() >> 2)}); break;
        case 4: p.add("trunc", {(int64_t)(rng.u64() >> 2)}); break;
        case 5: p.add("noise", {rng.chance(0.2) ? rng.range(0, 2999) : rng.range(0, 60), (int64_t)(rng.u64() >> 2), 1}); break;
        default:
        {
            int64_t len = rng.chance(0.4) ? rng.range(2040, 2060) : rng.chance(0.5) ? rng.range(0, 65535) : rng.chance(0.3) ? 0 : rng.range(1, 2048);
            p.add("header", {CLS[rng.below(11)], IDS[rng.below(9)], len});
        }
        }
    }
};

// ================================================================= C08
struct Frames : LinkBase
{
    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p;
        p.set("chunks", (int64_t)(rng.u64() >> 2));
        auto keys = genKeys(rng);
        const bool safe = rng.chance(0.65);
        genListeners(rng, p, keys, rng.chance(0.8));
        const int n = (int)rng.range(1, thorough ? 80 : 30);
        for (int k = 0; k < n; ++k)
        {
            if (rng.chance(0.04)) genListeners(rng, p, keys, rng.chance(0.5));
            genFrame(rng, p, keys, rng.chance(0.4) ? 1 : rng.chance(0.4) ? 2 : 4);
            if (rng.chance(0.1)) p.add("dup", {});
            if (rng.chance(0.15)) p.add("flip", {(int64_t)rng.below(4), (int64_t)(rng.u64() >> 2), (int64_t)rng.below(8)});
            if (rng.chance(0.1)) p.add("noise", {rng.range(0, 60), (int64_t)(rng.u64() >> 2), 0});
            if (!safe && rng.chance(0.2)) genUnsafe(rng, p);
        }
        return p;
    }
    void execute(const Plan& p, Run& run) override { checkAll(p, run, true, false); }
    bool keep(const Op& op) const override { return op.name == "listener"; }
};
DST_SCENARIO("C08", Frames)

// ================================================================= C09
struct Resync : LinkBase
{
    Plan generate(Rng& rng, bool) override
    {
        Plan p;
        p.set("chunks", (int64_t)(rng.u64() >> 2));
        auto keys = genKeys(rng);
        genListeners(rng, p, keys, true);
        const int n = (int)rng.range(1, 12);
        for (int k = 0; k < n; ++k)
        {
            if (rng.chance(0.7)) genFrame(rng, p, keys, rng.chance(0.4) ? 1 : rng.chance(0.5) ? 2 : 4);
            if (rng.chance(0.6)) genUnsafe(rng, p);
        }
        genUnsafe(rng, p);
        // clean traffic without the start pattern inside frames
        int64_t total = 0;
        int after = 0;
        while (after < 4)
        {
            auto k = keys[rng.below(keys.size())];
            if (k.first == 0xB5 || k.second == 0xB5 || k.first == 0x62 || k.second == 0x62) continue;
            int64_t len = total > 2200 ? genLen(rng) : rng.range(0, 300);
            p.add("frame", {k.first, k.second, len, (int64_t)(rng.u64() >> 2), 5});
            total += len + 8;
            if (total > 4200) ++after;
        }
        return p;
    }
    void execute(const Plan& p, Run& run) override { checkAll(p, run, false, true); }
    bool keep(const Op& op) const override { return op.name == "listener"; }
};
DST_SCENARIO("C09", Resync)

// ================================================================= C10
struct Open : ub::Ubx
{
    using ub::Ubx::Ubx;
    using ub::Ubx::waitForResponse;
};

struct Event
{
    int64_t at;
    Bytes bytes;
    int kind;  // 1 ack 2 nack 3 version 0 other, 9 clock jump
    int64_t jump;
    std::string prot, mod;
};
std::vector<Event>* g_events;
size_t g_next;
async_comm::Comm* g_comm;
bool g_busy;
bool g_gated;  // a receiver does not answer a request that is still being sent
void pump()
{
    if (g_busy || g_gated || !g_events) return;
    g_busy = true;
    while (g_next < g_events->size() && (*g_events)[g_next].at <= clk::mono_ns)
    {
        Event& e = (*g_events)[g_next++];
        if (e.kind == 9)
            clk::wall_offset_ns += e.jump;
        else
            g_comm->deliver(e.bytes.data(), e.bytes.size());
    }
    g_busy = false;
}

std::string text(uint64_t seed, int what)
{
    Rng r(seed);
    char b[64];
    if (what == 0)
    {
        switch (r.below(8))
        {
        case 0: return "PROTVER=" + std::to_string(r.below(10));                  // no minor version
        case 1: return "PROTVER=" + std::to_string(r.below(100000000));           // far too many digits
        case 2: snprintf(b, sizeof b, "PROTVER=%02d.%02d", (int)r.below(100), (int)r.below(100)); return b;
        case 3: return "PROTVER=";
        default: snprintf(b, sizeof b, "PROTVER=%d.%02d", (int)r.range(14, 35), (int)r.below(100)); return b;
        }
    }
    const char* mods[] = {"MOD=ZED-F9P", "MOD=NEO-M8P-2", "MOD=X", "MOD=", "MOD=ABCDEFGHIJKLMNOPQRSTUVWXYZ", "MOD=NINECHARS", "MOD=TENCHARS10"};
    return mods[r.below(7)];
}

struct Config : Scenario
{
    Plan generate(Rng& rng, bool thorough) override
    {
        Plan p;
        p.set("cost", rng.range(500, 50000));
        p.set("fill", (int64_t)rng.below(256));
        const int n = (int)rng.range(1, thorough ? 14 : 7);
        for (int k = 0; k < n; ++k)
        {
            // what arrives after the call was made: time, kind, seed
            const int what = (int)rng.below(3);
            auto when = [&]() -> int64_t {
                switch (rng.below(5))
                {
                case 0: return rng.chance(0.5) ? 0 : rng.range(0, 2000000);
                case 1: return rng.range(0, 900000000);
                case 2: return rng.range(800000000, 950000000);
                case 3: return rng.range(1060000000, 1500000000);
                default: return rng.range(0, 300000000);
                }
            };
            const int ne = (int)rng.range(0, 5);
            for (int e = 0; e < ne; ++e)
            {
                int64_t t = when();
                int kind;
                if (rng.chance(0.2))
                {
                    int64_t j = rng.chance(0.5) ? rng.range(-5000000000ll, 5000000000ll) : rng.range(-100000000000000ll, 100000000000000ll);
                    p.add("jump", {t, j});
                    continue;
                }
                if (rng.chance(0.5)) kind = what == 0 ? 3 : what == 1 ? (rng.chance(0.7) ? 1 : 2) : 0;
                else kind = (int)rng.below(6);
                // split: the frame arrives in two parts
                p.add("event", {t, kind, (int64_t)(rng.u64() >> 2), rng.chance(0.3) ? (int64_t)rng.range(1, 900000000) : 0});
            }
            switch (what)
            {
            case 0: p.add("version", {}); break;
            case 1: p.add("wait", {}); break;
            default: p.add("config", {(int64_t)rng.below(7), (int64_t)(rng.u64() >> 2)}); break;
            }
        }
        return p;
    }

    static void callConfig(ub::Ubx& u, int which, uint64_t seed)
    {
        Rng r(seed);
        switch (which)
        {
        case 0: u.disableNmea(); break;
        case 1: u.setDynamicMode(); break;
        case 2: u.setNavRate((uint8_t)r.range(1, 255)); break;
        case 3: { const uint8_t c = (uint8_t)r.below(256), i = (uint8_t)r.below(256); u.enableMessage(c, i, (uint8_t)r.below(256)); break; }
        case 4: u.startSurveyIn(); break;
        case 5: { const uint8_t v = (uint8_t)r.below(2), l = (uint8_t)r.below(8); u.getConfiguration(v, l, (uint32_t)r.u64()); break; }
        default: { const uint8_t v = (uint8_t)r.below(2), l = (uint8_t)r.below(8); const uint64_t d = r.u64(); const uint32_t key = (uint32_t)r.u64(); u.configure(v, l, d, key, (uint8_t)r.range(1, 2)); }
        }
    }

    void checkSent(const Bytes& b, Run& run, const char* what, size_t& frames)
    {
        size_t at = 0;
        frames = 0;
        while (at < b.size())
        {
            if (b.size() - at < 8 || b[at] != 0xB5 || b[at + 1] != 0x62) run.fail("malformed", "%s: what was sent is not a sequence of frames (offset %zu of %zu)", what, at, b.size());
            const size_t n = (size_t)(b[at + 4] | b[at + 5] << 8) + 8;
            if (at + n > b.size()) run.fail("malformed", "%s: a frame announces %zu bytes, %zu follow", what, n, b.size() - at);
            if (!ubxw::valid(&b[at], n)) run.fail("malformed", "%s: wrong checksum", what);
            at += n;
            ++frames;
        }
    }

    void execute(const Plan& p, Run& run) override
    {
        clk::start(1600000000ll * 1000000000ll);
        clk::cost_ns = std::max<int64_t>(200, p.get("cost", 1000));
        std::vector<Event> ev;
        async_comm::Comm comm;
        Bytes out;
        g_gated = false;
        comm.on_send = [&](const uint8_t* b, size_t n) {
            out.insert(out.end(), b, b + n);
            if (g_gated && out.size() >= 8 && ubxw::valid(out.data(), out.size()))
            {
                // the request is complete: whoever answers at once does so before the sender comes round to wait
                g_gated = false;
                pump();
                if (g_next) run.fault("answer-before-wait");
            }
        };
        std::vector<uint8_t> mem(sizeof(Open) + 64, (uint8_t)p.get("fill", 0));
        uint8_t* at = mem.data() + (64 - (uintptr_t)mem.data() % 64) % 64;
        Open& u = *new (at) Open(comm);
        g_comm = &comm;
        g_events = &ev;
        g_next = 0;
        clk::on_advance = pump;
        size_t delivered = 0;
        Rec count(0, [&](int, uint8_t, uint8_t, const ub::UbxMessage&) { ++delivered; });
        count.subscribe(2, 0x13);
        u.registerListener(&count);
        // the last version reply that was heard
        int major = 0, minor = 0;
        std::string module;
        bool answered = false;
        std::vector<std::pair<std::string, std::string>> history;
        const int64_t ms = 1000000;
        std::vector<const Op*> pending;
        int calls = 0;
        for (auto& op : p.ops)
        {
            if (op.name == "event" || op.name == "jump") { pending.push_back(&op); continue; }
            const bool version = op.name == "version", wait = op.name == "wait", config = op.name == "config";
            if (!version && !wait && !config) continue;
            ++calls;
            run.ops();
            const int64_t t0 = clk::mono_ns;
            ev.clear();
            g_next = 0;
            // the line is serial: events happen one after the other, a split frame finishes before the next
            int64_t line = t0;
            std::vector<const Op*> sorted = pending;
            std::stable_sort(sorted.begin(), sorted.end(), [](const Op* a, const Op* b) { return a->i(0) < b->i(0); });
            for (auto* e : sorted)
            {
                int64_t t = std::max(line, t0 + std::max<int64_t>(e->i(0), wait ? 400000 : 0));
                if (e->name == "jump")
                {
                    Event x{t, {}, 9, e->i(1), "", ""};
                    ev.push_back(x);
                    continue;
                }
                Event x{t, {}, (int)e->i(1), 0, "", ""};
                const uint64_t seed = e->u(2);
                Rng r(seed);
                Bytes b;
                switch (x.kind)
                {
                case 1: ubxw::append(b, 5, 1, Bytes{6, (uint8_t)r.below(256)}); break;
                case 2: ubxw::append(b, 5, 0, Bytes{6, (uint8_t)r.below(256)}); break;
                case 3:
                {
                    Bytes v(40 + 30 * (size_t)r.range(2, 6), 0);
                    memcpy(v.data(), "EXT CORE 1.00 (94e56e)", 22);
                    memcpy(v.data() + 30, "00190000", 8);
                    x.prot = text(r.u64(), 0);
                    x.mod = text(r.u64(), 1);
                    const size_t slots = (v.size() - 40) / 30;
                    const size_t a = r.below(slots);
                    size_t c = r.below(slots - 1);
                    if (c >= a) ++c;
                    memcpy(&v[40 + 30 * a], x.prot.data(), std::min<size_t>(30, x.prot.size()));
                    memcpy(&v[40 + 30 * c], x.mod.data(), std::min<size_t>(30, x.mod.size()));
                    ubxw::append(b, 0x0A, 0x04, v);
                    break;
                }
                case 4: b = ubxw::payload(r.below(40), r.u64(), 3); x.kind = 0; break;   // noise
                case 5:  // a damaged answer is no answer
                    ubxw::append(b, 5, (uint8_t)r.below(2), Bytes{6, 1});
                    b[b.size() - 1] ^= 0x10;
                    x.kind = 0;
                    run.fault("bit-flip");
                    break;
                default: ubxw::append(b, 2, 0x13, ubxw::payload(r.below(60), r.u64(), 5)); x.kind = 0; break;
                }
                if (e->i(3) && b.size() > 1)
                {
                    const size_t cut = 1 + r.below(b.size() - 1);
                    Event h = x;
                    h.kind = 0;
                    h.bytes.assign(b.begin(), b.begin() + cut);
                    ev.push_back(h);
                    x.bytes.assign(b.begin() + cut, b.end());
                    x.at = t + e->i(3);
                    run.fault("slow-receiver");
                }
                else
                    x.bytes = b;
                line = x.at;
                ev.push_back(x);
            }
            std::stable_sort(ev.begin(), ev.end(), [](const Event& a, const Event& b) { return a.at < b.at; });
            pending.clear();
            // what should come of it
            bool ack = false, nack = false, ver = false, near = false;
            int64_t answer = -1;
            for (auto& e : ev)
            {
                const int64_t dt = e.at - t0;
                if (e.kind == 9) { run.fault("clock-jump"); continue; }
                const bool relevant = version ? e.kind == 3 : (e.kind == 1 || e.kind == 2);
                if (relevant && answer < 0 && dt > 950 * ms && dt < 1060 * ms) near = true;
                if (dt > 1000 * ms) continue;
                if (version && e.kind == 3 && answer < 0) { ver = true; answer = dt; }
                if (wait && (e.kind == 1 || e.kind == 2))
                {
                    if (answer < 0) { (e.kind == 1 ? ack : nack) = true; answer = dt; }
                    // two contradicting answers in one polling interval: either may be seen first
                    else if (dt - answer < 2 * ms && (e.kind == 1) != ack) near = true;
                }
            }
            out.clear();
            if (config)
            {
                callConfig(u, (int)op.i(0), op.u(1));
                size_t frames = 0;
                checkSent(out, run, "configuration", frames);
                if (!frames) run.fail("malformed", "configuration call %d sent nothing", (int)op.i(0));
                // the same call on an object with another past (but the same receiver version)
                async_comm::Comm c2;
                Bytes out2;
                std::vector<uint8_t> mem2(sizeof(Open) + 64, (uint8_t)~p.get("fill", 0));
                uint8_t* at2 = mem2.data() + (64 - (uintptr_t)mem2.data() % 64) % 64;
                Open& u2 = *new (at2) Open(c2);
                for (auto& h : history)
                {
                    Bytes b, v(100, 0);
                    memcpy(&v[40], h.first.data(), std::min<size_t>(30, h.first.size()));
                    memcpy(&v[70], h.second.data(), std::min<size_t>(30, h.second.size()));
                    ubxw::append(b, 0x0A, 0x04, v);
                    c2.deliver(b.data(), b.size());
                }
                c2.on_send = [&](const uint8_t* b, size_t n) { out2.insert(out2.end(), b, b + n); };
                callConfig(u2, (int)op.i(0), op.u(1));
                u2.~Open();
                if (out != out2)
                {
                    size_t k = 0;
                    while (k < std::min(out.size(), out2.size()) && out[k] == out2[k]) ++k;
                    run.fail("history-dependent", "configuration call %d sends other bytes depending on what happened before (%zu and %zu bytes, first difference at %zu)",
                             (int)op.i(0), out.size(), out2.size(), k);
                }
                if (op.i(0) == 3)
                {
                    Rng r(op.u(1));
                    const uint8_t a = (uint8_t)r.below(256), b = (uint8_t)r.below(256), c = (uint8_t)r.below(256);
                    Bytes want;
                    ubxw::append(want, 6, 1, Bytes{a, b, c});
                    if (out != want) run.fail("content", "enabling message %02x-%02x at rate %d sent something else", a, b, c);
                }
                // let the events of this step happen
                clk::advance(1600 * ms);
            }
            else
            {
                g_gated = version;
                const bool ok = version ? u.getVersion() : u.waitForResponse();
                g_gated = false;
                const int64_t took = clk::mono_ns - t0;
                if (version)
                {
                    Bytes want;
                    ubxw::append(want, 0x0A, 0x04, {});
                    if (out != want) run.fail("malformed", "the version request is not a well-formed poll");
                }
                else if (!out.empty())
                    run.fail("malformed", "waiting sent bytes");
                const bool want = version ? ver : ack;
                if (!near)
                {
                    if (ok != want)
                        run.fail("answer", "%s returned %d; %s (after %lld ms)", op.name.c_str(), ok,
                                 want ? "the answer arrived in time" : nack ? "the answer was negative" : "no answer arrived in time", (long long)(answer / ms));
                    if (took > 1060 * ms) run.fail("unbounded-wait", "%s took %lld ms", op.name.c_str(), (long long)(took / ms));
                    if (answer >= 0 && took > answer + 30 * ms)
                        run.fail("late", "%s returned %lld ms after the answer", op.name.c_str(), (long long)((took - answer) / ms));
                    if (answer < 0 && took < 940 * ms) run.fail("gave-up", "%s gave up after %lld ms", op.name.c_str(), (long long)(took / ms));
                }
                answered |= answer >= 0;
                run.ev("%s %d %lld", op.name.c_str(), ok, (long long)took);
                run.state(mix(mix(version, ok), (uint64_t)(took / (50 * ms))));
                clk::advance(1600 * ms - std::min<int64_t>(took, 1500 * ms));
            }
            // everything planned for this step has arrived by now
            while (g_next < ev.size()) clk::advance(100 * ms);
            for (auto& e : ev)
                if (e.kind == 3)
                {
                    history.push_back({e.prot, e.mod});
                    int a = 0, b = 0;
                    const std::string v = e.prot.substr(8);
                    const size_t dot = v.find('.');
                    if (dot != std::string::npos && dot <= 2)
                    {
                        a = atoi(v.substr(0, dot).c_str());
                        b = atoi(v.substr(dot + 1).c_str());
                        if (u.majorVersion() != a || u.minorVersion() != b)
                        {
                            // a later reply in the same step may have changed it again
                            bool later = false;
                            for (auto& f : ev) later |= f.kind == 3 && &f > &e;
                            if (!later) run.fail("version", "receiver says %s, version reads %d.%d", e.prot.c_str(), u.majorVersion(), u.minorVersion());
                        }
                    }
                    bool later = false;
                    for (auto& f : ev) later |= f.kind == 3 && &f > &e;
                    const std::string m = e.mod.substr(4);
                    if (!later)
                    {
                        const char* got = u.moduleVame();
                        if (!memchr(got, 0, 10)) run.fail("module", "the module name is not terminated");
                        if (m.size() <= 9 && m != got) run.fail("module", "receiver says %s, module reads %.9s", m.c_str(), got);
                    }
                }
            (void)major; (void)minor;
        }
        if (answered && calls > 1) run.nontrivial();
        run.simTime((double)clk::mono_ns * 1e-9 - 1000);
        run.ev("delivered %zu", delivered);
        clk::on_advance = nullptr;
        g_events = nullptr;
        u.~Open();
    }
};
DST_SCENARIO("C10", Config)

}  // namespace
