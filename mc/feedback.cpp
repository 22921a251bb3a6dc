// Transport-wide congestion control feedback: the real subscriber side (RtpResponderTWCC) against an independent
// decoder and a record of the arrivals, and the real publisher side (RtpExtensionSourceTWCC) against an independent
// encoder and a record of what each message stated.
#include "util_mc.h"

#include "srtc/byte_buffer.h"
#include "srtc/extension_map.h"
#include "srtc/rtcp_packet.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/rtp_extension_source_twcc.h"
#include "srtc/rtp_packet.h"
#include "srtc/rtp_responder_twcc.h"
#include "srtc/rtp_std_extensions.h"
#include "srtc/twcc_common.h"
#include "srtc/twcc_publish.h"

#include <algorithm>
#include <cmath>
#include <map>
#include <optional>
#include <set>

using namespace srtc;
using mc::Ctx;
using mcu::Bytes;
using mcu::toBuf;
using mcu::toBytes;

namespace
{

constexpr uint8_t kExtId = 5;

std::shared_ptr<Track> twccTrack(Direction dir, MediaType type = MediaType::Video, uint32_t ssrc = 0x01020304)
{
    mcu::TrackSpec s;
    s.dir = dir;
    s.type = type;
    s.ssrc = ssrc;
    s.codec = type == MediaType::Video ? Codec::VP8 : Codec::Opus;
    s.ext.add(kExtId, RtpStandardExtensions::kExtGoogleTWCC);
    return mcu::makeTrack(s);
}

// ----- An independent decoder of feedback messages

struct Decoded {
    uint16_t base = 0;
    uint32_t ref = 0;
    uint8_t fb = 0;
    struct Status {
        bool received;
        int64_t units; // of 250 us from the reference time
    };
    std::vector<Status> list;
};

bool decode(const Bytes& b, Decoded& out, std::string& why)
{
    if (b.size() < 8) {
        why = "shorter than its header";
        return false;
    }
    out.base = static_cast<uint16_t>((b[0] << 8) | b[1]);
    const size_t count = static_cast<size_t>((b[2] << 8) | b[3]);
    out.ref = (uint32_t(b[4]) << 16) | (uint32_t(b[5]) << 8) | b[6];
    out.fb = b[7];
    if (count == 0) {
        why = "covers no packets";
        return false;
    }
    size_t at = 8;
    std::vector<int> symbols;
    while (symbols.size() < count) {
        if (at + 2 > b.size()) {
            why = "is cut short in the chunks";
            return false;
        }
        const unsigned chunk = static_cast<unsigned>((b[at] << 8) | b[at + 1]);
        at += 2;
        if ((chunk & 0x8000) == 0) {
            const int sym = static_cast<int>((chunk >> 13) & 3);
            const size_t run = chunk & 0x1FFF;
            if (run == 0 || symbols.size() + run > count) {
                why = "has a run length of " + std::to_string(run) + " with " +
                      std::to_string(count - symbols.size()) + " packets left";
                return false;
            }
            symbols.insert(symbols.end(), run, sym);
        } else if ((chunk & 0x4000) == 0) {
            for (int i = 13; i >= 0; i -= 1) {
                const int sym = static_cast<int>((chunk >> i) & 1);
                if (symbols.size() < count) {
                    symbols.push_back(sym);
                } else if (sym != 0) {
                    why = "has statuses beyond its count";
                    return false;
                }
            }
        } else {
            for (int i = 12; i >= 0; i -= 2) {
                const int sym = static_cast<int>((chunk >> i) & 3);
                if (symbols.size() < count) {
                    symbols.push_back(sym);
                } else if (sym != 0) {
                    why = "has statuses beyond its count";
                    return false;
                }
            }
        }
    }
    int64_t time = 0;
    for (const auto sym : symbols) {
        Decoded::Status st = { false, 0 };
        if (sym == 1) {
            if (at + 1 > b.size()) {
                why = "is cut short in the deltas";
                return false;
            }
            time += b[at];
            at += 1;
            st = { true, time };
        } else if (sym == 2) {
            if (at + 2 > b.size()) {
                why = "is cut short in the deltas";
                return false;
            }
            time += static_cast<int16_t>((b[at] << 8) | b[at + 1]);
            at += 2;
            st = { true, time };
        } else if (sym == 3) {
            why = "uses the reserved symbol";
            return false;
        }
        out.list.push_back(st);
    }
    while (at < b.size() && b.size() - at < 4 && b[at] == 0) {
        at += 1;
    }
    if (at != b.size()) {
        why = "has " + std::to_string(b.size() - at) + " bytes left over";
        return false;
    }
    return true;
}

// ----- Subscriber

class Subscriber
{
public:
    Subscriber(Ctx& ctx, int64_t firstAfterUs)
        : mCtx(ctx)
        , mTrack(twccTrack(Direction::Subscribe))
        , mResponder(std::make_unique<RtpResponderTWCC>())
    {
        env::advanceUs(firstAfterUs);
    }

    // A packet with this (unwrapped) transport-wide number arrives now
    void arrive(int64_t seq)
    {
        RtpExtensionBuilder builder;
        builder.addU16Value(kExtId, static_cast<uint16_t>(seq));
        const auto packet = std::make_shared<RtpPacket>(
            mTrack, false, 0, static_cast<uint16_t>(seq * 3), 1000, 0, builder.build(), ByteBuffer());
        mResponder->onMediaPacket(packet);
        mPending[seq].push_back(env::nowUs());
        mEver.insert(seq);
        mMaxSeq = std::max(mMaxSeq, seq);
        mCtx.step();
        mCtx.log("%.3f ms: packet %lld arrives", static_cast<double>(env::nowUs()) / 1000.0, static_cast<long long>(seq));
    }

    // One turn of the network loop
    void run()
    {
        const auto list = mResponder->run(mTrack);
        mCtx.step();
        for (const auto& packet : list) {
            message(packet);
        }
        if (!list.empty()) {
            for (const auto& p : mPending) {
                mCtx.check(false,
                           "M11",
                           "arrived-not-covered",
                           "packet %lld arrived since the last report, and the report made at %lld us does not cover it",
                           static_cast<long long>(p.first),
                           static_cast<long long>(env::nowUs()));
            }
        }
    }

    void finish()
    {
        env::advanceMs(250);
        run();
        env::advanceMs(250);
        run();
        mCtx.check(mPending.empty(),
                   "M11",
                   "arrived-not-covered",
                   "packet %lld arrived and no report covers it",
                   mPending.empty() ? 0ll : static_cast<long long>(mPending.begin()->first));
        mCtx.outcome(mHash);
    }

    [[nodiscard]] bool ever(int64_t seq) const
    {
        return mEver.count(seq) != 0;
    }

    int64_t mMaxSeq = 0;

private:
    void message(const std::shared_ptr<RtcpPacket>& packet)
    {
        const auto wire = toBytes(packet->generate());
        mCtx.check(wire.size() <= 1200, "M11", "size", "a feedback message of %zu bytes", wire.size());
        const auto payload = toBytes(packet->getPayload());
        mHash = mcu::hashBytes(payload, mHash);
        mCtx.state(mHash);
        Decoded d;
        std::string why = "has no media source";
        const bool ok = packet->getPayloadId() == RtcpPacket::kFeedback && packet->getRC() == 15 && payload.size() >= 4 &&
                        decode(Bytes(payload.begin() + 4, payload.end()), d, why);
        mCtx.check(ok, "M11", "format", "the feedback message %s: %s", mcu::hex(payload).c_str(), why.c_str());
        if (!ok) {
            mCtx.abandon();
        }
        if (mCtx.verbose()) {
            std::string s;
            for (const auto& st : d.list) {
                s += st.received ? std::to_string(st.units) + " " : "- ";
            }
            mCtx.log("%.3f ms: feedback %u, base %u, reference %u: %s",
                     static_cast<double>(env::nowUs()) / 1000.0,
                     d.fb,
                     d.base,
                     d.ref,
                     s.c_str());
        }
        mCtx.check(!mLastFb || static_cast<uint8_t>(*mLastFb + 1) == d.fb,
                   "M11",
                   "feedback-count",
                   "feedback number %u after %u",
                   d.fb,
                   mLastFb ? *mLastFb : 0u);
        mLastFb = d.fb;

        // The base number is the one closest to the newest arrival
        int64_t base = (mMaxSeq & ~int64_t(0xFFFF)) | d.base;
        if (base > mMaxSeq + 0x8000) {
            base -= 0x10000;
        } else if (base < mMaxSeq - 0x8000) {
            base += 0x10000;
        }

        // The reference time is 24 bits of 64 ms from an arbitrary origin
        int64_t ref = d.ref;
        if (mLastRef) {
            const int64_t delta = static_cast<int64_t>(static_cast<uint32_t>(d.ref - static_cast<uint32_t>(*mLastRef)) << 8);
            ref = *mLastRef + (static_cast<int64_t>(static_cast<int32_t>(static_cast<uint32_t>(delta))) >> 8);
        }
        mLastRef = ref;

        for (size_t i = 0; i < d.list.size(); i += 1) {
            const int64_t seq = base + static_cast<int64_t>(i);
            const auto& st = d.list[i];
            const auto iter = mPending.find(seq);
            if (!st.received) {
                mCtx.check(iter == mPending.end(),
                           "M11",
                           "received-as-lost",
                           "packet %lld arrived and is reported as not received",
                           static_cast<long long>(seq));
                mCtx.check(!mEver.count(seq),
                           "M11",
                           "reported-then-lost",
                           "packet %lld arrived and was reported, and then is reported as not received",
                           static_cast<long long>(seq));
            } else {
                if (iter == mPending.end()) {
                    mCtx.check(mEver.count(seq) != 0,
                               "M11",
                               "lost-as-received",
                               "packet %lld is reported as received and did not arrive",
                               static_cast<long long>(seq));
                    mCtx.check(mEver.count(seq) == 0,
                               "M11",
                               "covered-twice",
                               "packet %lld is reported as received a second time",
                               static_cast<long long>(seq));
                    continue;
                }
                const int64_t decoded = ref * 64000 + st.units * 250;
                // The same constant has to explain all, within the resolution
                bool fits = false;
                int64_t best = 0;
                for (const auto arrived : iter->second) {
                    const int64_t off = arrived - decoded;
                    best = off;
                    if (!mHave || (std::max(mHi, off) - std::min(mLo, off) < 500)) {
                        fits = true;
                        break;
                    }
                }
                mCtx.check(fits,
                           "M11",
                           "arrival-time",
                           "packet %lld: the reported arrival time is off by %lld us from those of others",
                           static_cast<long long>(seq),
                           static_cast<long long>(best > mHi ? best - mLo : best - mHi));
                if (fits) {
                    mLo = mHave ? std::min(mLo, best) : best;
                    mHi = mHave ? std::max(mHi, best) : best;
                    mHave = true;
                }
                mPending.erase(iter);
            }
        }
    }

    Ctx& mCtx;
    std::shared_ptr<Track> mTrack;
    std::unique_ptr<RtpResponderTWCC> mResponder;
    std::map<int64_t, std::vector<int64_t>> mPending;
    std::set<int64_t> mEver;
    std::optional<uint8_t> mLastFb;
    std::optional<int64_t> mLastRef;
    bool mHave = false;
    int64_t mLo = 0, mHi = 0;
    uint64_t mHash = 1;
};

const int64_t kFirst[] = { 1, 50000, 63990, 70000, 10000000 };
const int64_t kSeqStart[] = { 1, 0, 65530, 131066 };

// Lets time pass. The network loop makes a turn at least every 100 ms, unless the process is held up.
void pass(Subscriber& s, int64_t us, bool stalled)
{
    if (!stalled) {
        while (us > 100000) {
            env::advanceUs(100000);
            s.run();
            us -= 100000;
        }
    }
    env::advanceUs(us);
}

struct Move {
    int64_t dt;
    bool stalled;
    int step;  // next = newest + step
    int which; // 1: the oldest missing, 2: the newest missing, 3: the newest again
    int turn;  // 0 run after the arrival, 1 no run after it
};

const Move kMoves[] = {
    { 1300, false, 1, 0, 0 },
    { 0, false, 1, 0, 1 },
    { 100, false, 1, 0, 1 },
    { 249, false, 1, 0, 1 },
    { 250, false, 1, 0, 1 },
    { 20000, false, 1, 0, 1 },
    { 63750, false, 1, 0, 1 },
    { 64100, false, 1, 0, 1 },
    { 110000, true, 1, 0, 1 },
    { 500000, true, 1, 0, 1 },
    { 8191000, true, 1, 0, 1 },
    { 8200000, true, 1, 0, 1 },
    { 20000000, true, 1, 0, 1 },
    { 150000, false, 1, 0, 0 },
    { 2100000, false, 1, 0, 0 },
    { 20000000, false, 1, 0, 0 },
    { 432000000000, false, 1, 0, 0 }, // days without traffic
    { 1300, false, 2, 0, 0 },
    { 1300, false, 3, 0, 0 },
    { 1300, false, 8, 0, 0 },
    { 1300, false, 15, 0, 0 },
    { 1300, false, 16, 0, 0 },
    { 1300, false, 120, 0, 0 },
    { 1300, false, 500, 0, 0 },
    { 2100000, false, 300, 0, 0 },
    { 1300, false, 0, 1, 0 },
    { 1300, false, 0, 2, 0 },
    { 150000, false, 0, 1, 0 },
    { 150000, false, 0, 2, 0 },
    { 100, true, 0, 2, 1 },
    { 1300, false, 0, 3, 0 },
};
constexpr int kMoveCount = sizeof(kMoves) / sizeof(kMoves[0]);

const int kFewMoves[] = { 0, 2, 6, 8, 11, 13, 18, 21, 25, 26, 27 };
constexpr int kFewCount = sizeof(kFewMoves) / sizeof(kFewMoves[0]);

void runArrivals(Ctx& ctx, int n, const int* subset, int count)
{
    env::reset(ctx.seed());
    // Pairs of the first arrival's time and number
    const int pairs[][2] = { { 2, 2 }, { 0, 0 }, { 1, 1 }, { 3, 3 }, { 4, 2 }, { 0, 2 } };
    const auto& pair = pairs[ctx.choose(ctx.thorough() ? 6 : subset ? 1 : 4, "start")];
    Subscriber s(ctx, kFirst[pair[0]]);
    const auto start = kSeqStart[pair[1]];

    std::set<int64_t> missing;
    int64_t newest = start;
    s.arrive(newest);
    s.run();
    s.mMaxSeq = newest;

    for (int i = 0; i < n; i += 1) {
        const int m = ctx.deviate(count, "arrival");
        const auto& move = kMoves[subset ? subset[m] : m];
        if (move.dt > 100000000) {
            env::advanceUs(move.dt);
            s.run();
        } else {
            pass(s, move.dt, move.stalled);
        }
        int64_t seq = newest;
        if (move.step > 0) {
            for (int k = 1; k < move.step; k += 1) {
                missing.insert(newest + k);
            }
            seq = newest + move.step;
            newest = seq;
        } else if (move.which == 1 || move.which == 2) {
            if (missing.empty()) {
                ctx.abandon();
            }
            seq = move.which == 1 ? *missing.begin() : *missing.rbegin();
            missing.erase(seq);
        } else {
            // An identical arrival, which can only come as a retransmission
            seq = newest;
            s.run();
            if (true) {
                env::advanceUs(120000);
                s.run();
            }
            continue;
        }
        s.arrive(seq);
        if (move.turn == 0) {
            s.run();
        }
    }
    s.finish();
}

void runArrivalsAll(Ctx& ctx)
{
    runArrivals(ctx, ctx.thorough() ? 14 : 12, nullptr, kMoveCount);
}

void runArrivalsFew(Ctx& ctx)
{
    runArrivals(ctx, ctx.thorough() ? 18 : 12, kFewMoves, kFewCount);
}

// Every sequence of small steps, all in one report
void runOneReport(Ctx& ctx)
{
    const int64_t dts[] = { 249, 60000, 64000, 8200000 };
    const int steps[] = { 1, 2, 20 };
    env::reset(ctx.seed());
    const int n = ctx.thorough() ? 6 : 5;
    const auto first = kFirst[1 + ctx.choose(3, "first arrival after")];
    const int before = ctx.choose(2, "a full chunk first");
    int alts[8] = {};
    alts[0] = ctx.choose(12, "first");
    alts[1] = ctx.choose(12, "second");
    uint64_t total = 1;
    for (int i = 2; i < n; i += 1) {
        total *= 12;
    }
    for (uint64_t c = 0; c < total; c += 1) {
        uint64_t v = c;
        for (int i = 2; i < n; i += 1) {
            alts[i] = static_cast<int>(v % 12);
            v /= 12;
        }
        env::reset(ctx.seed());
        Subscriber s(ctx, first);
        int64_t seq = 65530;
        s.arrive(seq);
        s.run();
        if (before) {
            for (int i = 0; i < 13; i += 1) {
                seq += 1;
                s.arrive(seq);
            }
        }
        for (int i = 0; i < n; i += 1) {
            env::advanceUs(dts[alts[i] / 3]);
            seq += steps[alts[i] % 3];
            s.arrive(seq);
        }
        s.run();
        s.finish();
    }
}

// Long streams with a repeating pattern, so that messages fill up
void runPeriodic(Ctx& ctx)
{
    const int64_t dts[] = { 0, 40, 249, 251, 1000, 30000, 63999, 70000 };
    const int steps[] = { 1, 2, 9, 17 };
    env::reset(ctx.seed());
    int64_t dt[3];
    int step[2];
    for (auto& d : dt) {
        d = dts[ctx.choose(8, "interval")];
    }
    for (auto& d : step) {
        d = steps[ctx.choose(4, "step")];
    }
    const int swap = ctx.choose(3, "swapped pairs");
    const bool stalled = ctx.flip("held up");
    Subscriber s(ctx, kFirst[ctx.choose(2, "first arrival after") * 3]);
    int64_t seq = 65000;
    const int count = stalled ? 1900 / std::max(1, (step[0] + step[1]) / 2) : (ctx.thorough() ? 2500 : 700);
    int64_t held = -1;
    int64_t inReport = 0;
    for (int i = 0; i < count; i += 1) {
        seq += step[i % 2];
        inReport += step[i % 2];
        pass(s, dt[i % 3], stalled);
        if (swap && i % (swap == 1 ? 5 : 16) == 3 && held < 0) {
            held = seq;
            continue;
        }
        s.arrive(seq);
        if (held >= 0) {
            s.arrive(held);
            held = -1;
        }
        if (!stalled || inReport > 1900) {
            s.run();
        }
        if (inReport > 1900) {
            inReport = 0;
            env::advanceMs(100);
            s.run();
        }
    }
    s.finish();
}

// As far apart as one report remembers: 2048 numbers, by at most 500 at once, up and down
void runWide(Ctx& ctx)
{
    env::reset(ctx.seed());
    Subscriber s(ctx, kFirst[1]);
    const int64_t start = ctx.choose(2, "start") ? 131066 : 65536 * 3 + 20;
    const bool reported = ctx.flip("after a report");
    if (reported) {
        s.arrive(start - 600);
        s.run();
        env::advanceMs(100);
        s.run();
        // The history goes on from there
        s.arrive(start - 300);
        s.run();
        env::advanceMs(100);
        s.run();
    }
    int64_t lowest = start, newest = start;
    s.arrive(start);
    const int n = ctx.thorough() ? 8 : 6;
    for (int i = 0; i < n; i += 1) {
        env::advanceUs(900);
        int64_t seq = 0;
        switch (ctx.choose(8, "arrival")) {
        case 0:
            seq = newest + 500;
            break;
        case 1:
            seq = newest + 499;
            break;
        case 2:
            seq = newest + 1;
            break;
        case 3:
            seq = lowest + 2047; // as far as it goes
            break;
        case 4:
            seq = lowest - 500;
            break;
        case 5:
            seq = newest - 2047;
            break;
        case 6:
            seq = lowest - 1;
            break;
        case 7:
            seq = lowest + 1024;
            break;
        }
        if (s.ever(seq) || seq > newest + 500 || seq < lowest - 500 || std::max(newest, seq) - std::min(lowest, seq) >= 2048 || (reported && seq < start - 200)) {
            ctx.abandon();
        }
        lowest = std::min(lowest, seq);
        newest = std::max(newest, seq);
        s.arrive(seq);
    }
    env::advanceMs(100);
    s.run();
    s.finish();
}

// ----- Publisher

struct Sent {
    uint16_t seq = 0;
    int64_t order = 0;
    bool haveStatus = false;
    int status = 0;
    int64_t time = 0;
};

// Symbols: 0 not received, 1 small delta, 2 large delta
struct Message {
    uint16_t base = 0;
    uint32_t ref = 0;
    std::vector<int> symbols;
    std::vector<int> deltas; // in 250 us, one for each received packet
};

// The ways of packing the symbols
enum {
    PackRuns,
    PackOneBit,
    PackTwoBit,
    PackMixed,
    PackSingles,
    PackCount
};

std::optional<Bytes> encode(const Message& m, int packing, int split)
{
    Bytes b = { uint8_t(m.base >> 8),
                uint8_t(m.base),
                uint8_t(m.symbols.size() >> 8),
                uint8_t(m.symbols.size()),
                uint8_t(m.ref >> 16),
                uint8_t(m.ref >> 8),
                uint8_t(m.ref),
                9 };
    const auto put = [&](unsigned v) {
        b.push_back(static_cast<uint8_t>(v >> 8));
        b.push_back(static_cast<uint8_t>(v));
    };
    const auto n = m.symbols.size();
    const auto runs = [&](size_t from, size_t to, size_t limit) {
        while (from < to) {
            size_t len = 1;
            while (from + len < to && len < limit && m.symbols[from + len] == m.symbols[from]) {
                len += 1;
            }
            put(static_cast<unsigned>((m.symbols[from] << 13) | static_cast<int>(len)));
            from += len;
        }
    };
    const auto vec = [&](size_t from, size_t to, bool two) {
        while (from < to) {
            unsigned v = two ? 0xC000 : 0x8000;
            const size_t per = two ? 7 : 14;
            for (size_t i = 0; i < per && from + i < to; i += 1) {
                const auto sym = static_cast<unsigned>(m.symbols[from + i]);
                v |= two ? sym << (12 - 2 * i) : sym << (13 - i);
            }
            put(v);
            from += per;
        }
    };
    const bool large = std::find(m.symbols.begin(), m.symbols.end(), 2) != m.symbols.end();
    switch (packing) {
    case PackRuns:
        runs(0, n, 8191);
        break;
    case PackOneBit:
        if (large) {
            return {};
        }
        vec(0, n, false);
        break;
    case PackTwoBit:
        vec(0, n, true);
        break;
    case PackMixed: {
        // Runs up to the split, then vectors
        const auto at = std::min<size_t>(static_cast<size_t>(split), n);
        runs(0, at, 8191);
        vec(at, n, true);
        break;
    }
    case PackSingles:
        if (n > 300) {
            return {};
        }
        runs(0, n, 1);
        break;
    default:
        return {};
    }
    size_t k = 0;
    for (const auto sym : m.symbols) {
        if (sym == 1) {
            b.push_back(static_cast<uint8_t>(m.deltas[k++]));
        } else if (sym == 2) {
            put(static_cast<unsigned>(m.deltas[k++]) & 0xFFFF);
        }
    }
    return b;
}

class Publisher
{
public:
    explicit Publisher(Ctx& ctx)
        : mCtx(ctx)
        , mVideo(twccTrack(Direction::Publish))
        , mAudio(twccTrack(Direction::Publish, MediaType::Audio, 0x0a0b0c0d))
        , mSource(std::make_unique<RtpExtensionSourceTWCC>(nullptr))
    {
    }

    std::shared_ptr<RtpPacket> send(size_t size = 100, uint8_t padding = 0, bool audio = false)
    {
        const auto packet = std::make_shared<RtpPacket>(audio ? mAudio : mVideo,
                                                        false,
                                                        0,
                                                        static_cast<uint16_t>(mOrder),
                                                        1000,
                                                        padding,
                                                        RtpExtension(),
                                                        mcu::toBuf(Bytes(size, 7)));
        mSource->onBeforeGeneratingRtpPacket(packet);
        const auto seq = packet->getExtension().findU16(kExtId);
        if (!seq) {
            mCtx.violation("sequence", "a packet is sent without a transport-wide number");
            mCtx.abandon();
        }
        mSource->onBeforeSendingRtpPacket(packet, size + 20, size + 36);
        mOrder += 1;
        Sent s;
        s.seq = *seq;
        s.order = mOrder;
        if (mOrder > 1) {
            mCtx.check(*seq == static_cast<uint16_t>(mLast + 1), "M12", "sequence", "number %u follows %u", *seq, mLast);
        }
        mLast = *seq;
        mSent[s.seq] = s;
        return packet;
    }

    void feed(const Bytes& b)
    {
        // A feedback packet starts with the SSRC, already consumed
        const mcu::Exact exact(b);
        ByteReader reader(exact.data(), exact.size());
        mSource->onReceivedRtcpPacket(1, reader);
        mCtx.step();
    }

    // What a well-formed message states
    void expect(const Message& m)
    {
        int64_t ref = m.ref;
        if (mLastRef) {
            const uint32_t d = (m.ref - static_cast<uint32_t>(*mLastRef)) << 8;
            ref = *mLastRef + (static_cast<int64_t>(static_cast<int32_t>(d)) >> 8);
        }
        mLastRef = ref;
        int64_t time = ref * 64000;
        size_t k = 0;
        for (size_t i = 0; i < m.symbols.size(); i += 1) {
            const auto seq = static_cast<uint16_t>(m.base + i);
            if (m.symbols[i] == 0) {
                continue;
            }
            time += int64_t(m.deltas[k++]) * 250;
            const auto iter = mSent.find(seq);
            if (iter != mSent.end()) {
                iter->second.haveStatus = true;
                iter->second.status = m.symbols[i];
                iter->second.time = time;
            }
        }
    }

    // Compares what is remembered of the packets sent most recently
    void compare(int64_t window, const char* what)
    {
        const auto& history = *mSource->mPacketHistory;
        const int64_t from = std::max<int64_t>(1, mOrder - window + 1);
        for (int64_t o = from; o <= mOrder; o += 1) {
            const auto seq = static_cast<uint16_t>(mLast - (mOrder - o));
            const auto& s = mSent[seq];
            const auto* p = history.get(seq);
            mCtx.check(p && p->seq == seq, "M12", "history", "%s: packet %u is not in the history", what, seq);
            if (!p || p->seq != seq) {
                mCtx.abandon();
            }
            const bool received = p->reported_status != 0;
            mCtx.check(received == s.haveStatus,
                       "M12",
                       "status",
                       "%s: packet %u is taken as %s",
                       what,
                       seq,
                       received ? "received" : "not received");
            mCtx.check(p->received_time_present == s.haveStatus,
                       "M12",
                       "time-present",
                       "%s: packet %u: arrival time %s",
                       what,
                       seq,
                       p->received_time_present ? "present" : "not present");
            if (!s.haveStatus || !p->received_time_present) {
                continue;
            }
            // Times matter up to a constant
            const auto off = p->received_time_micros - s.time;
            if (!mOffset) {
                mOffset = off;
            }
            mCtx.check(off == *mOffset,
                       "M12",
                       "time",
                       "%s: the arrival time of packet %u is taken %lld us off",
                       what,
                       seq,
                       static_cast<long long>(off - *mOffset));
        }
    }

    void ranges(const char* what)
    {
        PublishConnectionStats st = {};
        mSource->updatePublishConnectionStats(st);
        mCtx.check(st.packets_lost_percent >= -1.0f && st.packets_lost_percent <= 100.0f,
                   "M12",
                   "loss-range",
                   "%s: %f percent lost",
                   what,
                   static_cast<double>(st.packets_lost_percent));
        mCtx.check(std::isfinite(st.bandwidth_actual_kbit_per_second) && st.bandwidth_actual_kbit_per_second >= -1.0f,
                   "M12",
                   "bandwidth-range",
                   "%s: bandwidth %f",
                   what,
                   static_cast<double>(st.bandwidth_actual_kbit_per_second));
        mCtx.check(std::isfinite(st.bandwidth_suggested_kbit_per_second) &&
                       st.bandwidth_suggested_kbit_per_second >= -1.0f,
                   "M12",
                   "bandwidth-range",
                   "%s: suggested bandwidth %f",
                   what,
                   static_cast<double>(st.bandwidth_suggested_kbit_per_second));
        const auto packet = std::make_shared<RtpPacket>(mVideo, false, 0, uint16_t(1), 1000, uint8_t(0), mcu::toBuf(Bytes(1000, 7)));
        const auto spread = mSource->getPacingSpreadMillis({ packet, packet }, 1.0f, 15);
        mCtx.check(spread <= 66, "M12", "spread-range", "%s: spread %u", what, spread);
        mStats = st;
    }

    [[nodiscard]] uint16_t last() const
    {
        return mLast;
    }

    PublishConnectionStats mStats = {};
    std::unique_ptr<RtpExtensionSourceTWCC>& source()
    {
        return mSource;
    }

private:
    Ctx& mCtx;
    std::shared_ptr<Track> mVideo, mAudio;
    std::unique_ptr<RtpExtensionSourceTWCC> mSource;
    std::map<uint16_t, Sent> mSent;
    int64_t mOrder = 0;
    uint16_t mLast = 0;
    std::optional<int64_t> mLastRef;
    std::optional<int64_t> mOffset;
};

void fillDeltas(Message& m, int variant)
{
    const int smalls[] = { 0, 4, 255, 1, 17 };
    const int larges[] = { 300, -3, 32767, -32768, 256 };
    m.deltas.clear();
    int k = variant;
    for (const auto sym : m.symbols) {
        if (sym == 1) {
            m.deltas.push_back(smalls[k++ % 5]);
        } else if (sym == 2) {
            m.deltas.push_back(larges[k++ % 5]);
        }
    }
}

std::string describe(const Message& m, int packing)
{
    std::string s = "feedback base " + std::to_string(m.base) + " reference " + std::to_string(m.ref) + " packing " +
                    std::to_string(packing) + " of ";
    for (size_t i = 0; i < m.symbols.size() && i < 40; i += 1) {
        s += static_cast<char>('0' + m.symbols[i]);
    }
    if (m.symbols.size() > 40) {
        s += "... (" + std::to_string(m.symbols.size()) + ")";
    }
    return s;
}

// Every vector of statuses in every packing, over a short history; then a second message over the same packets
void runMessages(Ctx& ctx)
{
    const int maxCount = ctx.thorough() ? 9 : 7;
    const int base = ctx.choose(14, "base") - 3; // the history is 1..8
    const int count = 1 + ctx.choose(maxCount, "count");
    const int packing = ctx.choose(PackCount, "packing");
    const int variant = ctx.choose(5, "deltas");
    int total = 1;
    for (int i = 0; i < count; i += 1) {
        total *= 3;
    }
    for (int c = 0; c < total; c += 1) {
        env::reset(ctx.seed());
        Message m;
        m.base = static_cast<uint16_t>(base);
        m.ref = 100;
        int v = c;
        for (int i = 0; i < count; i += 1) {
            m.symbols.push_back(v % 3);
            v /= 3;
        }
        fillDeltas(m, variant);
        const auto b = encode(m, packing, 1 + variant);
        if (!b) {
            continue;
        }
        Publisher p(ctx);
        for (int i = 0; i < 8; i += 1) {
            p.send();
        }
        const auto what = describe(m, packing);
        p.feed(*b);
        p.expect(m);
        p.compare(2048, what.c_str());

        // Another one, shifted
        Message m2;
        m2.base = static_cast<uint16_t>(base + 2);
        m2.ref = variant == 4 ? 99 : 104;
        m2.symbols.assign(m.symbols.rbegin(), m.symbols.rend());
        fillDeltas(m2, variant + 1);
        const auto b2 = encode(m2, packing, 2);
        if (b2) {
            p.send();
            p.feed(*b2);
            p.expect(m2);
            p.compare(2048, (what + ", then " + describe(m2, packing)).c_str());
        }
        p.ranges(what.c_str());
        ctx.outcome(mcu::hashBytes(*b, static_cast<uint64_t>(c)));
    }
}

std::vector<int> symbolPattern(int kind, size_t n)
{
    std::vector<int> r(n, 0);
    for (size_t i = 0; i < n; i += 1) {
        switch (kind) {
        case 0:
            r[i] = 1;
            break;
        case 1:
            r[i] = 0;
            break;
        case 2:
            r[i] = static_cast<int>(i % 2);
            break;
        case 3:
            r[i] = i + 1 == n ? 1 : 0;
            break;
        case 4:
            r[i] = static_cast<int>(i % 3);
            break;
        case 5:
            r[i] = i % 15 == 14 ? 2 : 1;
            break;
        default:
            r[i] = i == 0 ? 2 : 0;
            break;
        }
    }
    return r;
}

// Long histories: around the wrap of the numbers, and beyond what is remembered
void runWindow(Ctx& ctx)
{
    const int sents[] = { 30, 2047, 2048, 2049, 5000, 65534, 65536, 65540, 67000, 131080 };
    const int sent = sents[ctx.choose(10, "sent")];
    const int pattern = ctx.choose(7, "pattern");
    env::reset(ctx.seed());
    Publisher p(ctx);
    for (int i = 0; i < sent; i += 1) {
        p.send();
    }
    p.compare(std::min(sent, 2048), "nothing");
    const int offsets[] = { -2060, -2049, -2048, -2047, -2000, -100, -14, -3, -1, 0, 1, 20, 4000, 30000 };
    const size_t counts[] = { 1, 2, 7, 8, 14, 15, 29, 200, 2048, 2100, 8191, 8192, 20000, 65535 };
    uint32_t ref = 16777200;
    for (const auto off : offsets) {
        for (const auto count : counts) {
            for (int packing = 0; packing < PackCount; packing += 1) {
                Message m;
                m.base = static_cast<uint16_t>(p.last() + off);
                m.ref = ref & 0xFFFFFF;
                ref += 1;
                m.symbols = symbolPattern(pattern, count);
                fillDeltas(m, packing);
                const auto b = encode(m, packing, 9);
                if (!b) {
                    continue;
                }
                p.feed(*b);
                p.expect(m);
                const auto what = "after " + std::to_string(sent) + " packets, " + describe(m, packing);
                // What is not remembered must not matter
                p.compare(std::min(sent, 2048), what.c_str());
            }
        }
        p.ranges("window");
    }
}

// The reference time wraps, goes back, and jumps
void runReference(Ctx& ctx)
{
    env::reset(ctx.seed());
    Publisher p(ctx);
    // Also about 2^31 and 2^32 microseconds
    const uint32_t starts[] = { 0, 5, 33552, 67107, 0x7FFFFE, 0x800000, 0xFFFFFE, 0xFFFFFF };
    const int steps[] = { 0, 1, 2, 5, -1, -3, 200, 40000, -40000 };
    uint32_t ref = starts[ctx.choose(8, "reference")];
    std::string what = "references " + std::to_string(ref);
    const int rounds = ctx.thorough() ? 5 : 4;
    for (int i = 0; i < rounds; i += 1) {
        for (int k = 0; k < 3; k += 1) {
            p.send();
            env::advanceMs(10);
        }
        Message m;
        m.base = static_cast<uint16_t>(p.last() - 2);
        m.ref = ref & 0xFFFFFF;
        m.symbols = { 1, 0, 2 };
        m.deltas = { 10, 1000 };
        p.feed(*encode(m, PackTwoBit, 0));
        p.expect(m);
        p.compare(2048, what.c_str());
        p.ranges(what.c_str());
        ref += static_cast<uint32_t>(steps[ctx.choose(9, "step")]);
        what += " " + std::to_string(ref & 0xFFFFFF);
    }
}

// Anything at all as feedback
void runHostile(Ctx& ctx)
{
    const uint8_t alphabet[] = { 0x00, 0x01, 0x02, 0x20, 0x3f, 0x7f, 0x80, 0xbf, 0xc0, 0xff };
    const uint16_t bases[] = { 0, 5, 0xFFFE };
    const uint16_t counts[] = { 0, 1, 2, 7, 8, 14, 15, 300, 65535 };
    const int len = ctx.thorough() ? 6 : 5;
    const auto base = bases[ctx.choose(3, "base")];
    const auto count = counts[ctx.choose(9, "count")];
    const auto b1 = alphabet[ctx.choose(10, "byte")];
    const auto b2 = alphabet[ctx.choose(10, "byte")];
    env::reset(ctx.seed());
    Publisher p(ctx);
    for (int i = 0; i < 40; i += 1) {
        p.send(1000, i % 3 ? 50 : 0);
        env::advanceMs(60);
    }
    Bytes head = { uint8_t(base >> 8), uint8_t(base), uint8_t(count >> 8), uint8_t(count), 0, 0, 9, 1 };
    for (size_t n = 0; n < head.size(); n += 1) {
        p.feed(Bytes(head.begin(), head.begin() + static_cast<ptrdiff_t>(n)));
    }
    p.feed(head);
    Bytes b = head;
    b.push_back(b1);
    p.feed(b);
    b.push_back(b2);
    p.feed(b);
    uint64_t total = 1;
    for (int k = 3; k <= len; k += 1) {
        total *= 10;
        if (count > 1000 && k > 4) {
            break;
        }
        for (uint64_t c = 0; c < total; c += 1) {
            Bytes x = b;
            uint64_t v = c;
            for (int i = 2; i < k; i += 1) {
                x.push_back(alphabet[v % 10]);
                v /= 10;
            }
            p.feed(x);
        }
        p.ranges("hostile");
    }
    p.send();
    p.ranges("hostile");
}

// Streams of some seconds with feedback every 100 ms: the figures stay in their ranges, whatever is lost or claimed
void runFigures(Ctx& ctx)
{
    env::reset(ctx.seed());
    Publisher p(ctx);
    const int interval = ctx.choose(3, "interval");
    const int loss = ctx.choose(4, "loss");
    const int64_t us[] = { 2000, 9000, 30000 };
    const int periods = ctx.thorough() ? 60 : 45;
    const int devEvery = ctx.thorough() ? 3 : 5;
    int64_t clock = 0, lastFb = 0;
    uint16_t reported = 0;
    bool any = false;
    uint32_t ref = 1000;
    std::vector<std::shared_ptr<RtpPacket>> recent;
    for (int period = 0; period < periods; period += 1) {
        while (clock - lastFb < 100000) {
            env::advanceUs(us[interval]);
            clock += us[interval];
            recent.push_back(p.send(period % 7 == 0 ? 60 : 1000, (period / 10) % 2 ? 120 : 0, recent.size() % 5 == 0));
            if (recent.size() > 100) {
                recent.erase(recent.begin());
            }
        }
        lastFb = clock;
        const int dev = period % devEvery == devEvery - 1 ? ctx.deviate(8, "feedback") : 0;
        if (!any) {
            reported = 0;
            any = true;
        }
        Message m;
        m.base = static_cast<uint16_t>(reported + 1);
        const auto n = static_cast<size_t>(static_cast<uint16_t>(p.last() - reported));
        m.ref = ref & 0xFFFFFF;
        ref += 2;
        for (size_t i = 0; i < n; i += 1) {
            const bool lost = loss == 1 ? i % 4 == 1 : loss == 2 ? i % 2 == 1 : loss == 3 ? i + 1 != n : false;
            m.symbols.push_back(lost ? 0 : (dev == 2 ? 2 : 1));
            if (!lost) {
                m.deltas.push_back(dev == 2   ? (i % 2 ? 32767 : -32768)
                                   : dev == 3 ? 0
                                   : dev == 4 ? 255
                                              : static_cast<int>(us[interval] / 250) & 0xFF);
            }
        }
        if (dev == 5) {
            m.ref = 0; // a jump
        } else if (dev == 6) {
            for (const auto& packet : recent) {
                for (int k = 0; k < 3; k += 1) {
                    p.source()->onPacketWasNacked(packet);
                }
            }
        } else if (dev == 7) {
            env::advanceMs(4000);
        }
        reported = p.last();
        if (dev != 1) {
            p.feed(*encode(m, PackTwoBit, 0));
        }
        p.ranges("figures");
        uint32_t bits[2];
        memcpy(&bits[0], &p.mStats.packets_lost_percent, 4);
        memcpy(&bits[1], &p.mStats.bandwidth_suggested_kbit_per_second, 4);
        ctx.state(mc::mix(bits[0], bits[1]));
        // With everything lost but one in a period, or everything received, the figure says so
        if (period > 30 && loss == 0 && ctx.budget() == (ctx.thorough() ? 2 : 1) && dev == 0) {
            ctx.check(p.mStats.packets_lost_percent <= 0.0f,
                      "M12",
                      "loss",
                      "every packet was reported as received, and %f percent lost are shown",
                      static_cast<double>(p.mStats.packets_lost_percent));
        }
    }
}

// A steady stream: the figures are the share that was reported lost and the rate at which the rest was received
void runSteady(Ctx& ctx)
{
    env::reset(ctx.seed());
    const size_t sizes[] = { 60, 300, 700, 1100 };
    const int64_t intervals[] = { 2000, 5000, 10000, 20000, 33000 };
    const int every[] = { 0, 20, 10, 4, 3, 2 };
    const int64_t delays[] = { 0, 37000, 150000 };
    const auto size = sizes[ctx.choose(4, "size")];
    const auto interval = intervals[ctx.choose(5, "interval")];
    const auto loss = every[ctx.choose(6, "lost: one in")];
    const auto feedback = delays[ctx.choose(3, "feedback after")] + 50000;
    const int64_t origin = ctx.flip("reference wraps") ? (0x1000000ll - 20) * 64000 : 64000ll * 33500;
    const int burst = loss && ctx.choose(2, "burst") ? 3 : 1; // as many lost one after the other
    const int padding = loss ? 0 : ctx.choose(3, "probe") * 100; // two seconds of padded packets
    Publisher p(ctx);
    const int seconds = ctx.thorough() ? 60 : 24;
    int64_t clock = 0, last = 0;
    int sent = 0, from = 0, lostTotal = 0;
    while (clock < seconds * 1000000ll) {
        const bool probing = clock >= 19000000 && clock < 21000000;
        p.send(size, static_cast<uint8_t>(probing ? padding : 0));
        sent += 1;
        env::advanceUs(interval);
        clock += interval;
        if (clock - last < feedback || sent - from < 2) {
            continue;
        }
        last = clock;
        const auto isLost = [&](int i) { return loss && i / burst % loss == loss - 1; };
        Message m;
        m.base = static_cast<uint16_t>(p.last() - (sent - from) + 1);
        // Packet i arrives at origin + i * interval
        const auto at = [&](int i) { return (origin + i * interval) / 250; };
        int first = from;
        while (first < sent && isLost(first)) {
            first += 1;
        }
        if (first == sent) {
            continue;
        }
        auto ref = at(first) / 256;
        m.ref = static_cast<uint32_t>(ref) & 0xFFFFFF;
        auto now = ref * 256;
        for (int i = from; i < sent; i += 1) {
            if (isLost(i)) {
                m.symbols.push_back(0);
                continue;
            }
            const auto d = at(i) - now;
            now = at(i);
            m.symbols.push_back(d <= 255 ? 1 : 2);
            m.deltas.push_back(static_cast<int>(d));
        }
        p.feed(*encode(m, PackTwoBit, 0));
        from = sent;
        p.ranges("steady");
        if (clock < 18000000) { // the figures are smoothed
            continue;
        }
        const auto total = std::min(sent, 2047);
        lostTotal = 0;
        for (int i = sent - total; i < sent; i += 1) {
            lostTotal += isLost(i) ? 1 : 0;
        }
        const double lostPercent = 100.0 * lostTotal / total;
        ctx.check(std::abs(static_cast<double>(p.mStats.packets_lost_percent) - lostPercent) <= 0.5 + 0.05 * lostPercent,
                  "M12",
                  "steady-loss",
                  "%d packets, %.1f percent of them reported lost, %f percent are shown",
                  sent,
                  lostPercent,
                  static_cast<double>(p.mStats.packets_lost_percent));
        int got = 0;
        const auto span = static_cast<int>(1500000 / interval);
        for (int i = sent - span; i < sent; i += 1) {
            got += isLost(i) ? 0 : 1;
        }
        const auto payload = size;
        const double tolerance = burst > 1 ? 0.25 : 0.12; // the span measured starts and ends with a received packet
        const double rate = 1.0 * got / span * static_cast<double>(payload) * 8.0 * 1e6 / static_cast<double>(interval) / 1024.0;
        ctx.check(static_cast<double>(p.mStats.bandwidth_actual_kbit_per_second) >= rate * (1 - tolerance) &&
                      static_cast<double>(p.mStats.bandwidth_actual_kbit_per_second) <= rate * (1 + tolerance),
                  "M12",
                  "steady-rate",
                  "packets of %zu bytes every %lld us, one in %d lost: %.1f kbit/s are received, %.1f are shown",
                  size,
                  static_cast<long long>(interval),
                  loss,
                  rate,
                  static_cast<double>(p.mStats.bandwidth_actual_kbit_per_second));
        const auto actual = static_cast<double>(p.mStats.bandwidth_actual_kbit_per_second);
        const auto suggested = static_cast<double>(p.mStats.bandwidth_suggested_kbit_per_second);
        ctx.check(padding || (suggested <= 1.0001 * actual && suggested >= 0.8 * actual),
                  "M12",
                  "steady-suggested",
                  "%.1f kbit/s are received, and %.1f suggested without a probe",
                  actual,
                  suggested);
        if (padding && clock > 22500000) {
            const double probed = rate / static_cast<double>(payload) * static_cast<double>(payload + static_cast<size_t>(padding));
            ctx.check(suggested <= 1.15 * probed && suggested >= 0.85 * probed,
                      "M12",
                      "steady-probed",
                      "%.1f kbit/s were received in a probe, and %.1f are suggested",
                      probed,
                      suggested);
        }
        ctx.state(static_cast<uint64_t>(p.mStats.bandwidth_actual_kbit_per_second));
    }
    ctx.outcome(mc::mix(static_cast<uint64_t>(p.mStats.bandwidth_actual_kbit_per_second), static_cast<uint64_t>(lostTotal)));
}

} // namespace

namespace mc
{

void registerScenarios(bool thorough)
{
    env::quiet();
    add("arrivals", { "M11" }, 2, 3, runArrivalsAll, false, 8);
    add("arrivals-deep", { "M11" }, 3, 4, runArrivalsFew);
    add("one-report", { "M11" }, 0, 0, runOneReport);
    add("periodic", { "M11" }, 0, 0, runPeriodic);
    add("wide", { "M11" }, 0, 0, runWide);
    add("messages", { "M12" }, 0, 0, runMessages);
    add("window", { "M12" }, 0, 0, runWindow);
    add("reference", { "M12" }, 0, 0, runReference);
    add("hostile", { "M12" }, 0, 0, runHostile);
    add("steady", { "M12" }, 0, 0, runSteady);
    add("figures", { "M12" }, thorough ? 2 : 1, 2, runFigures);
}

} // namespace mc
