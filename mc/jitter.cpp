// M01, M02, M03: the real JitterBuffer against a reference model of the stream that was sent.
//
// Alphabet: the arrival fate of every packet (on time, lost, delayed by one of several amounts, duplicated early or
// late, arriving over RTX), the frame structure, the position of the sequence and timestamp wrap, the pauses of the
// sender. The polling follows the code under test's own getTimeoutMillis, as the connection's loop does.
#include "util_mc.h"

#include "srtc/depacketizer.h"
#include "srtc/encoded_frame.h"
#include "srtc/jitter_buffer.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/rtp_packet.h"
#include "srtc/rtp_std_extensions.h"

#include <algorithm>
#include <map>
#include <set>

using namespace srtc;
using namespace mcu;

namespace
{

constexpr int kLengthMs = 100;
constexpr int kNackMs = 20;
constexpr int kDefaultTimeout = 50;

// Payload: [kindbits, frame, index, count, filler]. Output of extract: the concatenation of all payloads.
class TestDepacketizer final : public Depacketizer
{
public:
    TestDepacketizer(const std::shared_ptr<Track>& track, bool split)
        : Depacketizer(track)
        , mSplit(split)
    {
    }
    [[nodiscard]] PacketKind getPacketKind(const ByteBuffer& payload, bool marker) const override
    {
        const bool start = payload.size() > 0 && (payload.data()[0] & 1);
        if (start) {
            return marker ? PacketKind::Standalone : PacketKind::Start;
        }
        return marker ? PacketKind::End : PacketKind::Middle;
    }
    void reset() override
    {
    }
    void extract(std::vector<ByteBuffer>& out, const std::vector<const JitterBufferItem*>& list) override
    {
        out.clear();
        if (mSplit) {
            for (const auto p : list) {
                out.push_back(p->payload.copy());
            }
        } else {
            ByteBuffer b;
            for (const auto p : list) {
                b.append(p->payload);
            }
            out.push_back(std::move(b));
        }
    }

private:
    const bool mSplit;
};

struct SentPacket {
    int frame;
    int index;
    int count;
    uint16_t seq;
    uint32_t ts;
    bool marker;
    bool startBit;
    int64_t sendUs;
    Bytes payload;
};

struct Arrival {
    int64_t us;
    int packet;
    bool rtx;
    int order;
    bool operator<(const Arrival& o) const
    {
        return us != o.us ? us < o.us : order < o.order;
    }
};

struct Shape {
    std::vector<int> sizes;        // packets per frame
    std::vector<int> gapsMs;       // time to the next frame
    uint16_t seq0 = 1000;
    uint32_t ts0 = 100000;
    size_t capacity = 64;
    bool ambiguous = false;        // AV1-like: every packet looks like a start
    bool hasNack = true;
    bool hasRtx = true;
    int64_t skewMs = 0;            // sender's RTP clock runs this much per frame differently from arrival
};

struct Params {
    // Menu of arrival fates besides "on time"
    std::vector<int> delaysMs;
    bool loss = true;
    bool dups = true;
};

void run(mc::Ctx& c, const Shape& sh, const Params& pa)
{
    env::reset(c.seed());

    TrackSpec ts;
    ts.nack = sh.hasNack;
    if (sh.hasRtx) {
        ts.rtxSsrc = 0x55667788;
        ts.rtxPt = 97;
    }
    ts.dir = Direction::Subscribe;
    if (sh.ambiguous) {
        ts.codec = Codec::AV1;
    }
    const auto track = makeTrack(ts);
    std::shared_ptr<Depacketizer> depacketizer;
    if (sh.ambiguous) {
        depacketizer = Depacketizer::make(track).first;
    } else {
        depacketizer = std::make_shared<TestDepacketizer>(track, false);
    }
    JitterBuffer jb(
        track, depacketizer, sh.capacity, std::chrono::milliseconds(kLengthMs), std::chrono::milliseconds(kNackMs));

    // What was sent
    std::vector<SentPacket> sent;
    int64_t t = 10'000;
    uint16_t seq = sh.seq0;
    uint32_t rts = sh.ts0;
    for (size_t f = 0; f < sh.sizes.size(); f += 1) {
        for (int i = 0; i < sh.sizes[f]; i += 1) {
            SentPacket p;
            p.frame = static_cast<int>(f);
            p.index = i;
            p.count = sh.sizes[f];
            p.seq = seq;
            p.ts = rts;
            p.marker = i == sh.sizes[f] - 1;
            p.startBit = i == 0 || (sh.ambiguous && true);
            p.sendUs = t + i * 1000;
            p.payload = { static_cast<uint8_t>(p.startBit ? 1 : 0),
                          static_cast<uint8_t>(f),
                          static_cast<uint8_t>(i),
                          static_cast<uint8_t>(sh.sizes[f]) };
            for (int k = 0; k < 3; k += 1) {
                p.payload.push_back(pat(c.seed(), f * 100 + i, k));
            }
            sent.push_back(p);
            seq += 1;
        }
        const auto gap = f < sh.gapsMs.size() ? sh.gapsMs[f] : 30;
        t += gap * 1000;
        rts += static_cast<uint32_t>(gap * 90);
    }
    const auto endUs = t;

    // Fate of each packet
    std::vector<Arrival> arrivals;
    int order = 0;
    const auto nDelays = static_cast<int>(pa.delaysMs.size());
    for (size_t i = 0; i < sent.size(); i += 1) {
        const auto& p = sent[i];
        // 0: on time; 1: lost; 2..: delayed; then: duplicated immediately; duplicated very late (over RTX);
        // then: lost and recovered over RTX after each delay
        const int n = 1 + (pa.loss ? 1 : 0) + nDelays + (pa.dups ? 2 : 0) + (sh.hasRtx ? 1 : 0);
        auto k = c.deviate(n, "fate");
        const auto arrive = [&](int64_t us, bool rtx) { arrivals.push_back({ us, static_cast<int>(i), rtx, order++ }); };
        if (k == 0) {
            arrive(p.sendUs, false);
            continue;
        }
        k -= 1;
        if (pa.loss) {
            if (k == 0) {
                c.log("packet %zu (frame %d part %d) lost", i, p.frame, p.index);
                continue;
            }
            k -= 1;
        }
        if (k < nDelays) {
            c.log("packet %zu (frame %d part %d) delayed by %d ms", i, p.frame, p.index, pa.delaysMs[k]);
            arrive(p.sendUs + pa.delaysMs[k] * 1000, false);
            continue;
        }
        k -= nDelays;
        if (pa.dups) {
            if (k == 0) {
                c.log("packet %zu (frame %d part %d) duplicated at once", i, p.frame, p.index);
                arrive(p.sendUs, false);
                arrive(p.sendUs, sh.hasRtx);
                continue;
            }
            if (k == 1) {
                c.log("packet %zu (frame %d part %d) duplicated after its deadline", i, p.frame, p.index);
                arrive(p.sendUs, false);
                arrive(p.sendUs + (kLengthMs + 8) * 1000, sh.hasRtx);
                continue;
            }
            k -= 2;
        }
        // Lost, then recovered over RTX in time
        c.log("packet %zu (frame %d part %d) recovered over RTX", i, p.frame, p.index);
        arrive(p.sendUs + 45'000, true);
    }
    std::stable_sort(arrivals.begin(), arrivals.end());

    // Model
    std::vector<int64_t> firstArrival(sent.size(), -1);
    for (const auto& a : arrivals) {
        if (firstArrival[a.packet] < 0) {
            firstArrival[a.packet] = a.us;
        }
    }
    // With AV1 each packet carries one whole OBU of type Frame, so nothing but its neighbours tells whether it starts
    // a frame
    const auto onWire = [&](const SentPacket& p) {
        if (!sh.ambiguous) {
            return p.payload;
        }
        Bytes b = { static_cast<uint8_t>(0x10 | (p.index == 0 ? 0x08 : 0)), 6 << 3 };
        b.insert(b.end(), p.payload.begin(), p.payload.end());
        return b;
    };

    // The playout reference: the first packet that arrives
    int64_t baseUs = 0, baseTs = 0;
    if (!arrivals.empty()) {
        baseUs = arrivals[0].us;
        baseTs = static_cast<int32_t>(sent[arrivals[0].packet].ts - sh.ts0);
    }
    const auto deadlineOf = [&](const SentPacket& p) {
        const auto d = static_cast<int64_t>(static_cast<int32_t>(p.ts - sh.ts0)) - baseTs;
        return baseUs + d * 1000 / 90 + kLengthMs * 1000;
    };

    std::vector<int> delivered(sh.sizes.size(), 0);
    std::vector<int64_t> deliveredUs(sh.sizes.size(), -1);
    int lastDelivered = -1;

    // NACK model
    std::map<uint16_t, int> indexOf;
    for (size_t i = 0; i < sent.size(); i += 1) {
        indexOf[sent[i].seq] = static_cast<int>(i);
    }
    const auto indexOfFrame = [&](int f) {
        for (size_t i = 0; i < sent.size(); i += 1) {
            if (sent[i].frame == f) {
                return i;
            }
        }
        return size_t{ 0 };
    };
    std::vector<int> requested(sent.size(), 0);
    std::vector<int64_t> requestedUs(sent.size(), -1);
    std::vector<int64_t> gapKnownUs(sent.size(), -1);
    std::vector<char> received(sent.size(), 0);
    int minSeen = -1, maxSeen = -1;

    uint64_t h = 0;
    size_t next = 0;
    int64_t now = 0;
    const int64_t horizon = endUs + 600'000;
    int spins = 0;
    int64_t lastPoll = 0;
    while (now < horizon) {
        // As the connection's loop: wait for a packet or the timeout
        env::setUs(now);
        auto timeout = jb.getTimeoutMillis(kDefaultTimeout);
        timeout = std::max(0, std::min(timeout, 100));
        c.check(timeout <= kDefaultTimeout, "M02", "timeout", "timeout %d is over the default", timeout);
        auto wake = now + timeout * 1000;
        if (timeout == 0) {
            spins += 1;
            if (spins > 3) {
                // A frame without its end: the buffer polls, which is allowed. Let time pass.
                wake = now + 1000;
            }
        } else {
            spins = 0;
        }
        while (next < arrivals.size() && arrivals[next].us <= now) {
            next += 0;
            break;
        }
        if (next < arrivals.size() && arrivals[next].us <= wake) {
            wake = std::max(now, arrivals[next].us);
        }
        now = wake;
        env::setUs(now);
        c.step();
        while (next < arrivals.size() && arrivals[next].us <= now) {
            const auto& a = arrivals[next];
            const auto& p = sent[a.packet];
            std::shared_ptr<RtpPacket> pkt;
            if (a.rtx) {
                Bytes b = { static_cast<uint8_t>(p.seq >> 8), static_cast<uint8_t>(p.seq) };
                const auto w = onWire(p);
                b.insert(b.end(), w.begin(), w.end());
                pkt = std::make_shared<RtpPacket>(track,
                                                  ts.rtxSsrc,
                                                  ts.rtxPt,
                                                  p.marker,
                                                  0,
                                                  static_cast<uint16_t>(7000 + next),
                                                  p.ts,
                                                  0,
                                                  RtpExtension(),
                                                  toBuf(b));
            } else {
                pkt = std::make_shared<RtpPacket>(track, p.marker, 0, p.seq, p.ts, 0, toBuf(onWire(p)));
            }
            jb.consume(pkt);
            c.step();
            received[a.packet] = 1;
            if (minSeen < 0) {
                minSeen = maxSeen = a.packet;
            }
            for (int i = a.packet + 1; i < minSeen; i += 1) {
                gapKnownUs[i] = now;
            }
            for (int i = maxSeen + 1; i < a.packet; i += 1) {
                gapKnownUs[i] = now;
            }
            minSeen = std::min(minSeen, a.packet);
            maxSeen = std::max(maxSeen, a.packet);
            next += 1;
        }

        const auto nacks = jb.processNack();
        for (const auto s : nacks) {
            const auto it = indexOf.find(s);
            c.check(it != indexOf.end(), "M03", "nack-unknown", "requested SEQ %u was never sent", s);
            const auto i = it->second;
            c.log("t=%lld nack frame %d part %d", static_cast<long long>(now / 1000), sent[i].frame, sent[i].index);
            c.check(sh.hasNack, "M03", "nack-disabled", "requested SEQ %u though the track has no NACK", s);
            c.check(!received[i], "M03", "nack-received", "requested SEQ %u after it was received", s);
            c.check(i > minSeen && i < maxSeen, "M03", "nack-outside", "requested SEQ %u is not between received ones", s);
            c.check(gapKnownUs[i] >= 0 && now - gapKnownUs[i] >= kNackMs * 1000 - 500,
                    "M03",
                    "nack-early",
                    "SEQ %u requested %lld us after the gap was seen",
                    s,
                    static_cast<long long>(now - gapKnownUs[i]));
            requested[i] += 1;
            requestedUs[i] = now;
            c.check(requested[i] <= 3, "M03", "nack-unbounded", "SEQ %u requested %d times", s, requested[i]);
            h = mc::mix(h, s + 1000);
        }
        for (size_t i = 1; i < nacks.size(); i += 1) {
            c.check(static_cast<int16_t>(nacks[i] - nacks[i - 1]) > 0,
                    "M03",
                    "nack-order",
                    "request list is not in order: %u after %u",
                    nacks[i],
                    nacks[i - 1]);
        }

        for (size_t i = 0; i < sent.size(); i += 1) {
            if (sh.hasNack && gapKnownUs[i] >= 0 && !received[i] && requested[i] == 0 && now < deadlineOf(sent[i])) {
                c.check(now < gapKnownUs[i] + kNackMs * 1000 + 1000,
                        "M03",
                        "nack-withheld",
                        "packet %zu (frame %d part %d), missing since %lld ms, was not in the requests made at %lld ms",
                        i,
                        sent[i].frame,
                        sent[i].index,
                        static_cast<long long>(gapKnownUs[i] / 1000),
                        static_cast<long long>(now / 1000));
            }
        }

        const auto frames = jb.processDeque();
        for (const auto& f : frames) {
            auto b = toBytes(f->data);
            if (sh.ambiguous) {
                Bytes units;
                c.check(b.size() % 9 == 0, "M01", "frame-bytes", "AV1 frame of %zu bytes", b.size());
                for (size_t i = 0; i + 9 <= b.size(); i += 9) {
                    c.check(b[i] == 0x32 && b[i + 1] == 7, "M01", "frame-bytes", "AV1 unit %s", hex(b).c_str());
                    units.insert(units.end(), b.begin() + i + 2, b.begin() + i + 9);
                }
                b = units;
            }
            c.check(b.size() >= 7 && b.size() % 7 == 0, "M01", "frame-bytes", "frame of %zu bytes", b.size());
            const int fi = b[1];
            c.check(fi < static_cast<int>(sh.sizes.size()), "M01", "frame-bytes", "bad frame index %d", fi);
            c.log("t=%lld frame %d delivered", static_cast<long long>(now / 1000), fi);
            Bytes expected;
            for (const auto& p : sent) {
                if (p.frame == fi) {
                    expected.insert(expected.end(), p.payload.begin(), p.payload.end());
                }
            }
            if (sh.ambiguous && b != expected && b.size() < expected.size() &&
                std::equal(b.rbegin(), b.rend(), expected.rbegin()) &&
                !received[indexOf[sent[indexOfFrame(fi)].seq] + (expected.size() - b.size()) / 7 - 1]) {
                // The packet before the ones that came out is missing, and nothing marks the next one as not the first
                if (!c.tolerate("M01", "av1-frame-without-lost-head")) {
                    c.check(false, "M01", "av1-frame-without-lost-head", "frame %d delivered without its head", fi);
                }
                delivered[fi] += 1;
                lastDelivered = std::max(lastDelivered, fi);
                deliveredUs[fi] = now;
                continue;
            }
            c.check(b == expected,
                    "M01",
                    "frame-bytes",
                    "frame %d is not made of exactly its packets: %s instead of %s",
                    fi,
                    hex(b, 70).c_str(),
                    hex(expected, 70).c_str());
            c.check(delivered[fi] == 0, "M01", "frame-twice", "frame %d delivered twice", fi);
            c.check(fi > lastDelivered, "M01", "frame-order", "frame %d delivered after %d", fi, lastDelivered);
            for (const auto& p : sent) {
                if (p.frame == fi) {
                    c.check(static_cast<uint32_t>(f->rtp_timestamp_ext) == p.ts,
                            "M01",
                            "frame-ts",
                            "frame %d has the wrong timestamp",
                            fi);
                    c.check(firstArrival[indexOf[p.seq]] >= 0 && firstArrival[indexOf[p.seq]] <= now,
                            "M01",
                            "frame-incomplete",
                            "frame %d delivered without packet %d",
                            fi,
                            p.index);
                }
            }
            lastDelivered = std::max(lastDelivered, fi);
            delivered[fi] += 1;
            if (deliveredUs[fi] < 0) {
                deliveredUs[fi] = now;
            }
            h = mc::mix(h, static_cast<uint64_t>(fi) * 1000 + static_cast<uint64_t>(now / 1000));
        }
        c.state(mc::mix(h, static_cast<uint64_t>(next)));
        lastPoll = now;
    }
    (void)lastPoll;

    // M02: every frame whose packets all arrived before its deadline was delivered in time
    for (size_t f = 0; f < sh.sizes.size(); f += 1) {
        bool inTime = true;
        int64_t deadline = 0;
        for (size_t i = 0; i < sent.size(); i += 1) {
            const auto& p = sent[i];
            if (p.frame == static_cast<int>(f)) {
                deadline = deadlineOf(p);
                if (firstArrival[i] < 0 || firstArrival[i] > deadline - 2'000) {
                    inTime = false;
                }
            }
        }
        if (inTime) {
            c.check(delivered[f] > 0,
                    "M02",
                    "frame-missing",
                    "all packets of frame %zu arrived before its deadline but it was not delivered",
                    f);
            const auto limit = deadline + 2'000;
            c.check(deliveredUs[f] <= limit,
                    "M02",
                    "frame-late",
                    "frame %zu delivered at %lld ms, deadline %lld ms, limit %lld ms",
                    f,
                    static_cast<long long>(deliveredUs[f] / 1000),
                    static_cast<long long>(deadline / 1000),
                    static_cast<long long>(limit / 1000));
        }
    }

    // M03: every gap that stayed open long enough was asked for
    for (size_t i = 0; i < sent.size(); i += 1) {
        if (!sh.hasNack || gapKnownUs[i] < 0) {
            continue;
        }
        const auto due = gapKnownUs[i] + kNackMs * 1000;
        // It could be asked for between due and the earlier of its arrival and the deadline of its own frame
        const auto until = std::min(firstArrival[i] < 0 ? INT64_MAX : firstArrival[i], deadlineOf(sent[i]));
        if (due + (kDefaultTimeout + 3) * 1000 < until) {
            c.check(requested[i] > 0,
                    "M03",
                    "nack-missing",
                    "packet %zu (frame %d part %d) was missing from %lld to %lld ms and never requested",
                    i,
                    sent[i].frame,
                    sent[i].index,
                    static_cast<long long>(gapKnownUs[i] / 1000),
                    static_cast<long long>(until / 1000));
            c.check(requestedUs[i] < 0 || requested[i] > 1 || requestedUs[i] <= due + (kDefaultTimeout + 3) * 1000,
                    "M03",
                    "nack-late",
                    "packet %zu requested at %lld ms, due %lld ms",
                    i,
                    static_cast<long long>(requestedUs[i] / 1000),
                    static_cast<long long>(due / 1000));
        }
    }
    c.outcome(h);
}

// An outage: everything between two points of the stream is lost. Whatever its length in packets and in time, the
// stream is delivered again at the latest two and a half seconds after packets arrive again.
void runOutage(mc::Ctx& c, size_t capacity, uint16_t seq0, uint32_t ts0)
{
    env::reset(c.seed());
    TrackSpec ts;
    ts.dir = Direction::Subscribe;
    const auto track = makeTrack(ts);
    JitterBuffer jb(track,
                    std::make_shared<TestDepacketizer>(track, false),
                    capacity,
                    std::chrono::milliseconds(kLengthMs),
                    std::chrono::milliseconds(kNackMs));
    const auto cap = static_cast<int>(capacity);
    const std::vector<int> lengths = { 1,       cap / 8 - 2, cap / 8 - 1, cap / 8, cap / 4 - 2, cap / 4 - 1, cap / 4,
                                       cap / 2, cap - 2,     cap - 1,     cap,     cap + 1,     2 * cap,     5 * cap,
                                       16000,   20000,       32000 };
    const int lost = lengths[c.choose(static_cast<int>(lengths.size()), "outage packets")];
    const std::vector<int> intervals = { 2, 5, 20 };
    const int intervalMs = lost >= 16000 ? 2 : intervals[c.choose(static_cast<int>(intervals.size()), "packet interval")];
    // How many single-packet frames come before the outage
    const int before = 1 + c.choose(4, "before");
    const int after = 4000 / intervalMs;
    // One of the packets around the outage is late or lost
    const int oddIndex = c.choose(5, "odd packet");
    const int oddFate = oddIndex ? 1 + c.choose(2, "odd fate") : 0;

    struct Ev {
        int64_t us;
        int idx;
    };
    std::vector<Ev> events;
    for (int i = 0; i < before + lost + after; i += 1) {
        int64_t us = 10'000 + static_cast<int64_t>(i) * intervalMs * 1000;
        if (i >= before && i < before + lost) {
            continue;
        }
        if (oddIndex) {
            const int target = before + lost - 3 + oddIndex * 2; // -1, +1, +3, +5 around the end
            if (i == target || (oddIndex == 1 && i == before - 1)) {
                if (oddFate == 1) {
                    continue;
                }
                us += 30'000;
            }
        }
        events.push_back({ us, i });
    }
    if (events.empty()) {
        return;
    }
    std::stable_sort(events.begin(), events.end(), [](const Ev& a, const Ev& b) { return a.us < b.us; });
    int64_t resumed = 0;
    for (const auto& e : events) {
        if (e.idx >= before + lost) {
            resumed = e.us;
            break;
        }
    }
    std::map<int, int64_t> delivered;
    int last = -1;
    size_t next = 0;
    int64_t now = 0;
    const auto end = events.back().us + 400'000;
    uint64_t h = 0;
    while (now < end) {
        now = next < events.size() ? std::min(now + 10'000, std::max(now, events[next].us)) : now + 10'000;
        env::setUs(now);
        while (next < events.size() && events[next].us <= now) {
            const int i = events[next].idx;
            Bytes b = { 1, static_cast<uint8_t>(i >> 8), static_cast<uint8_t>(i), 9 };
            jb.consume(std::make_shared<RtpPacket>(track,
                                                   true,
                                                   0,
                                                   static_cast<uint16_t>(seq0 + i),
                                                   ts0 + static_cast<uint32_t>(i) * intervalMs * 90,
                                                   0,
                                                   toBuf(b)));
            next += 1;
            c.step();
        }
        (void)jb.processNack();
        for (const auto& f : jb.processDeque()) {
            const auto b = toBytes(f->data);
            c.check(b.size() == 4, "M01", "frame-bytes", "frame of %zu bytes", b.size());
            const int i = (b[1] << 8) | b[2];
            c.check(i > last, "M01", "frame-order", "frame %d delivered after %d", i, last);
            c.check(static_cast<uint16_t>(f->seq_ext) == static_cast<uint16_t>(seq0 + i),
                    "M01",
                    "frame-bytes",
                    "frame %d came out as the wrong sequence",
                    i);
            last = i;
            delivered[i] = now;
            h = mc::mix(h, static_cast<uint64_t>(i));
        }
        c.state(h);
    }
    const auto settled = std::max<int64_t>(resumed, 10'000 + static_cast<int64_t>(before - 1) * intervalMs * 1000 + 2'000'000) +
                         2'300'000;
    for (const auto& e : events) {
        if (e.us < settled) {
            continue;
        }
        const auto it = delivered.find(e.idx);
        c.check(it != delivered.end(),
                "M02",
                "stall",
                "packet %d arrived %lld ms after the end of an outage of %d packets and was not delivered",
                e.idx,
                static_cast<long long>((e.us - resumed) / 1000),
                lost);
        c.check(it == delivered.end() || it->second <= e.us + (kLengthMs + 60) * 1000,
                "M02",
                "stall-late",
                "packet %d delivered %lld ms after it arrived",
                e.idx,
                static_cast<long long>(it == delivered.end() ? 0 : (it->second - e.us) / 1000));
    }
    c.outcome(h);
}

// A burst of more packets than the buffer can hold
void runOverflow(mc::Ctx& c, size_t capacity, uint16_t seq0)
{
    env::reset(c.seed());
    TrackSpec ts;
    ts.dir = Direction::Subscribe;
    const auto track = makeTrack(ts);
    JitterBuffer jb(track,
                    std::make_shared<TestDepacketizer>(track, false),
                    capacity,
                    std::chrono::milliseconds(kLengthMs),
                    std::chrono::milliseconds(kNackMs));
    const int n = static_cast<int>(capacity) * 2 + 3;
    int last = -1;
    uint64_t h = 0;
    // Any one stretch of the burst is lost, any one packet of it comes late
    const int lossFrom = c.choose(n, "loss from");
    const int lossLen = c.choose(static_cast<int>(capacity) / 2, "loss length");
    const int late = c.choose(n, "late packet");
    std::vector<int> orderList;
    for (int i = 0; i < n; i += 1) {
        if (i >= lossFrom && i < lossFrom + lossLen) {
            continue;
        }
        if (i != late) {
            orderList.push_back(i);
        }
        if (i == late + static_cast<int>(capacity) / 4 + 1) {
            orderList.push_back(late);
        }
    }
    int64_t now = 10'000;
    for (const auto i : orderList) {
        env::setUs(now);
        Bytes b = { 1, static_cast<uint8_t>(i >> 8), static_cast<uint8_t>(i), 9 };
        jb.consume(std::make_shared<RtpPacket>(
            track, true, 0, static_cast<uint16_t>(seq0 + i), 1000u + static_cast<uint32_t>(i) * 90, 0, toBuf(b)));
        c.step();
    }
    for (int k = 0; k < 60; k += 1) {
        now += 10'000;
        env::setUs(now);
        (void)jb.processNack();
        for (const auto& f : jb.processDeque()) {
            const auto b = toBytes(f->data);
            const int i = (b[1] << 8) | b[2];
            c.check(i > last, "M01", "frame-order", "frame %d delivered after %d", i, last);
            c.check(static_cast<uint16_t>(f->seq_ext) == static_cast<uint16_t>(seq0 + i),
                    "M01",
                    "frame-bytes",
                    "frame %d came out as the wrong sequence",
                    i);
            last = i;
            h = mc::mix(h, static_cast<uint64_t>(i));
        }
        c.state(h);
    }
    c.outcome(h);
}

// Streams of hours and days, with pauses of up to five hours
void runHours(mc::Ctx& c)
{
    env::reset(c.seed());
    static const uint32_t clocks[] = { 90000, 48000, 8000 };
    TrackSpec ts;
    ts.dir = Direction::Subscribe;
    ts.clock = clocks[c.choose(3, "clock rate")];
    ts.ext.add(12, srtc::RtpStandardExtensions::kExtAbsCaptureTime);
    const auto track = makeTrack(ts);
    JitterBuffer jb(track, std::make_shared<TestDepacketizer>(track, false), 64, std::chrono::milliseconds(kLengthMs), std::chrono::milliseconds(kNackMs));
    static const int64_t gaps[] = { 33, 1000, 23000, 24000, 300000, 3600000, 18000000 };
    const auto first = c.choose(7, "interval 1"), second = c.choose(7, "interval 2"), third = c.thorough() ? c.choose(7, "interval 3") : first;
    const int64_t intervals[] = { gaps[first], gaps[second], gaps[third] };
    const uint16_t seq0 = c.flip("sequence wraps") ? 65500 : 100;
    const uint32_t ts0 = c.flip("timestamp high") ? 0xffffff00u : 5;
    const int frames = c.thorough() ? 120 : 48;
    const int odd = 1 + 5 * c.choose(frames / 5, "odd frame"), fate = c.choose(4, "fate");
    int64_t pts = 0;
    std::optional<uint64_t> base; // the extended time stamp of pts 0
    const int64_t start = 5'000'000;
    for (int i = 0; i < frames; i += 1) {
        const auto at = start + pts * 1000;
        const auto stamp = static_cast<uint32_t>(ts0 + static_cast<uint64_t>(pts) * ts.clock / 1000);
        const int capture = i % 4; // absolute capture time: none, without or with a clock offset, malformed
        const uint64_t captured = 0xe1234567'89abcdefull + static_cast<uint64_t>(i);
        const auto packet = [&](int k) {
            const Bytes b = { static_cast<uint8_t>(k == 0 ? 1 : 0), static_cast<uint8_t>(i), static_cast<uint8_t>(k), 7 };
            RtpExtensionBuilder ext;
            ext.addU16Value(5, 1000 + i);
            if (k == 1) { // only the first packet's counts
                ext.addU64Value(12, 77);
            } else if (capture == 1) {
                ext.addU64Value(12, captured);
            } else if (capture >= 2) {
                srtc::ByteBuffer v;
                srtc::ByteWriter w(v);
                if (capture == 2) {
                    w.writeU64(captured);
                    w.writeU64(static_cast<uint64_t>(-5 - i));
                } else {
                    w.writeU32(7);
                }
                ext.addBinaryValue(12, v);
            }
            jb.consume(std::make_shared<RtpPacket>(track, k == 1, 0, static_cast<uint16_t>(seq0 + 2 * i + k), stamp, 0, ext.build(), toBuf(b)));
            c.step();
        };
        const auto what = i == odd ? fate : 0;
        std::vector<uint16_t> asked;
        std::vector<std::shared_ptr<EncodedFrame>> got;
        const auto process = [&](int64_t us) {
            env::setUs(us);
            for (const auto n : jb.processNack()) {
                asked.push_back(n);
            }
            for (auto& f : jb.processDeque()) {
                got.push_back(f);
            }
        };
        env::setUs(at);
        if (what == 0 || what == 3) {
            packet(0);
        }
        packet(1);
        if (what == 3) { // once more
            packet(0);
        }
        process(at);
        process(at + 10'000);
        if (what == 1) { // late, before it is asked for
            packet(0);
        }
        process(at + 21'000);
        c.check(asked.size() == (what == 2 ? 1u : 0u) && (asked.empty() || asked[0] == static_cast<uint16_t>(seq0 + 2 * i)), "M03", "hours-asked", "frame %d: %zu packets are asked for", i,
                asked.size());
        const auto timeout = jb.getTimeoutMillis(60000);
        c.check(timeout <= kLengthMs - 21 + 1 && timeout >= 0, what == 2 ? "M03" : "M02", "hours-timeout", "frame %d: the next thing to do is in %d ms", i, timeout);
        process(at + kLengthMs * 1000 + 1'000);
        if (what == 2) {
            c.check(got.empty(), "M01", "hours-incomplete", "frame %d is delivered without its first packet", i);
        } else {
            c.check(got.size() == 1, "M02", "hours-missing", "frame %d, %lld ms after the first one: %zu frames are delivered", i, static_cast<long long>(pts), got.size());
            if (got.size() != 1) {
                return;
            }
            c.check(toBytes(got[0]->data) == Bytes({ 1, static_cast<uint8_t>(i), 0, 7, 0, static_cast<uint8_t>(i), 1, 7 }) &&
                        static_cast<uint16_t>(got[0]->seq_ext) == static_cast<uint16_t>(seq0 + 2 * i),
                    "M01", "frame-bytes", "frame %d has other bytes or another number", i);
            c.check(got[0]->marker, "M01", "hours-marker", "frame %d has no marker, its last packet has", i);
            c.check(got[0]->abs_capture_time_ntp == (capture == 1 || capture == 2 ? captured : 0u) &&
                        got[0]->abs_capture_time_offset == (capture == 2 ? -5 - i : 0),
                    "M01", "hours-capture", "frame %d (%d) has another capture time or clock offset than its first packet: %llx, %lld", i, capture,
                    static_cast<unsigned long long>(got[0]->abs_capture_time_ntp), static_cast<long long>(got[0]->abs_capture_time_offset));
            const auto stampExt = got[0]->rtp_timestamp_ext;
            const auto elapsed = static_cast<uint64_t>(pts) * ts.clock / 1000;
            if (!base) {
                base = stampExt - elapsed;
            }
            c.check(stampExt - base.value() == elapsed && static_cast<uint32_t>(stampExt) == stamp, "M01", "hours-timestamp",
                    "frame %d, %lld ms after the first one, has time stamp %llu, the first one %llu", i, static_cast<long long>(pts),
                    static_cast<unsigned long long>(stampExt), static_cast<unsigned long long>(base.value()));
        }
        c.state(mc::mix(static_cast<uint64_t>(i), static_cast<uint64_t>(got.size())));
        pts += intervals[i % 3];
    }
    c.outcome(static_cast<uint64_t>(pts));
}

} // namespace

namespace mc
{

void registerScenarios(bool thorough)
{
    env::quiet();
    const std::vector<std::string> props = { "M01", "M02", "M03" };
    Params pa;
    pa.delaysMs = { 5, 40, 80, 130 };
    const auto scenario = [&](const char* name, const Shape& sh, int q, int th, bool thoroughOnly = false) {
        mc::add(name, props, q, th, [=](mc::Ctx& c) { run(c, sh, pa); }, thoroughOnly);
    };

    Shape a;
    a.sizes = { 1, 1, 1, 1, 1, 1 };
    a.gapsMs = { 20, 20, 20, 20, 20, 20 };
    scenario("audio", a, 3, 4);

    Shape aw = a;
    aw.seq0 = 65534;
    aw.ts0 = 0xffffffffu - 3000;
    scenario("audio-wrap", aw, 3, 4);

    Shape v;
    v.sizes = { 2, 1, 3, 2 };
    v.gapsMs = { 30, 30, 30, 30 };
    scenario("video", v, 3, 4);

    Shape vw = v;
    vw.seq0 = 65533;
    vw.ts0 = 0xffffffffu - 4000;
    scenario("video-wrap", vw, 3, 4);

    Shape vs = v;
    vs.ts0 = 0;
    vs.seq0 = 0;
    scenario("video-zero", vs, 2, 4);

    Shape vn = v;
    vn.hasNack = false;
    vn.hasRtx = false;
    scenario("video-no-nack", vn, 2, 4);

    Shape am;
    am.sizes = { 3, 2, 1, 2 };
    am.gapsMs = { 30, 30, 30, 30 };
    am.ambiguous = true;
    scenario("ambiguous-start", am, 3, 4);

    // The sender pauses, for longer than the reset time, and resumes
    Shape ps;
    ps.sizes = { 1, 2, 1, 2 };
    ps.gapsMs = { 30, 2600, 30, 30 };
    scenario("pause", ps, 3, 4);

    // Capacity: more packets in flight than the buffer holds is not needed, but a burst that fills it is
    Shape cp;
    cp.sizes = { 3, 3, 3, 3 };
    cp.gapsMs = { 10, 10, 10, 10 };
    cp.capacity = 16;
    scenario("small-capacity", cp, 2, 3);

    mc::add("outage", { "M01", "M02" }, 0, 0, [](mc::Ctx& c) { runOutage(c, 64, 1000, 5000); });
    mc::add("outage-wrap", { "M01", "M02" }, 0, 0, [](mc::Ctx& c) { runOutage(c, 64, 65500, 0xffffffffu - 9000); });
    mc::add("hours", props, 0, 0, runHours);
    mc::add("overflow", { "M01" }, 0, 0, [](mc::Ctx& c) { runOverflow(c, 16, 100); });
    mc::add("overflow-wrap", { "M01" }, 0, 0, [](mc::Ctx& c) { runOverflow(c, 16, 65520); });

    // A long run of frames across the extension of both counters with a burst loss
    Shape lg;
    lg.sizes = { 1, 2, 1, 2, 1, 2, 1, 2, 1, 2 };
    lg.seq0 = 65530;
    lg.ts0 = 0xffffffffu - 15000;
    scenario("long-wrap", lg, 2, 3);
}

} // namespace mc
