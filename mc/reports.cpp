// Reports and requests exchanged by a connection, with the harness as the other side
#include "refpeer.h"

#include "srtc/rtcp_packet.h"
#include "srtc/rtcp_packet_multi.h"
#include "srtc/util.h"

#include <cmath>

using namespace peers;

namespace
{

// ----- Publishing

// The elements of an extension
std::map<int, Bytes> elements(const Rtp& r)
{
    std::map<int, Bytes> out;
    size_t at = 0;
    const auto one = r.extProfile == 0xbede;
    while (at < r.ext.size()) {
        if (r.ext[at] == 0) {
            at += 1;
            continue;
        }
        int id;
        size_t n;
        if (one) {
            id = r.ext[at] >> 4;
            n = (r.ext[at] & 15u) + 1;
            at += 1;
        } else {
            id = r.ext[at];
            n = at + 1 < r.ext.size() ? r.ext[at + 1] : 0;
            at += 2;
        }
        if (at + n > r.ext.size()) {
            break;
        }
        out[id] = Bytes(r.ext.begin() + static_cast<long>(at), r.ext.begin() + static_cast<long>(at + n));
        at += n;
    }
    return out;
}

std::string text(const Bytes& b)
{
    return std::string(b.begin(), b.end());
}

// Every packet the publisher sends is one of its media packets, each once, or a packet sent again
struct Wire {
    mc::Ctx& ctx;
    Solo& s;
    const PubSetup& u;
    const char* prop;
    size_t seen = 0;
    std::map<uint32_t, std::shared_ptr<srtc::Track>> bySsrc, byRtx;
    std::map<uint32_t, std::vector<Rtp>> sent; // media, by stream
    std::map<uint32_t, uint16_t> lastRtx;
    struct Again {
        uint32_t ssrc;
        uint16_t seq;
    };
    std::vector<Again> again;
    std::map<uint32_t, std::pair<size_t, size_t>> count; // by media stream: datagrams, their bytes

    Wire(Solo& solo, const PubSetup& setup, const char* property)
        : ctx(solo.ctx)
        , s(solo)
        , u(setup)
        , prop(property)
    {
        for (const auto& t : s.peer->answer->getTrackList()) {
            bySsrc[t->getSSRC()] = t;
            if (u.rtx) {
                byRtx[t->getRtxSSRC()] = t;
            }
        }
    }

    const Rtp* original(uint32_t ssrc, uint16_t seq)
    {
        for (const auto& r : sent[ssrc]) {
            if (r.seq == seq) {
                return &r;
            }
        }
        return nullptr;
    }

    void look()
    {
        for (; seen < s.ref.rtp.size(); seen += 1) {
            const auto& r = s.ref.rtp[seen];
            if (const auto i = bySsrc.find(r.ssrc); i != bySsrc.end()) {
                ctx.check(r.pt == i->second->getPayloadId(), prop, "payload-type", "stream %u has payload type %u", r.ssrc, r.pt);
                count[r.ssrc].first += 1;
                count[r.ssrc].second += r.wire;
                auto& list = sent[r.ssrc];
                if (r.again) {
                    ctx.check(!u.rtx, prop, "repeated", "packet %u of stream %u is sent again as it was", r.seq, r.ssrc);
                    again.push_back({ r.ssrc, r.seq });
                    continue;
                }
                ctx.check(list.empty() || static_cast<uint16_t>(list.back().seq + 1) == r.seq,
                          prop, "sequence", "stream %u: packet %u after %u", r.ssrc, r.seq, list.empty() ? 0 : list.back().seq);
                list.push_back(r);
                continue;
            }
            const auto i = byRtx.find(r.ssrc);
            ctx.check(i != byRtx.end(), prop, "unknown-stream", "a packet of stream %u", r.ssrc);
            const auto& t = *i->second;
            const auto ssrc = t.getSSRC();
            count[ssrc].first += 1;
            count[ssrc].second += r.wire;
            ctx.check(r.pt == t.getRtxPayloadId(), prop, "rtx-payload-type", "payload type %u for retransmission, not %u", r.pt, t.getRtxPayloadId());
            if (const auto last = lastRtx.find(r.ssrc); last != lastRtx.end()) {
                ctx.check(static_cast<uint16_t>(last->second + 1) == r.seq, prop, "rtx-sequence", "retransmission %u after %u", r.seq, last->second);
            }
            lastRtx[r.ssrc] = r.seq;
            ctx.check(r.payload.size() >= 2, prop, "rtx-short", "a retransmission of %zu bytes", r.payload.size());
            const auto seq = be16(r.payload, 0);
            const auto* o = original(ssrc, seq);
            ctx.check(o != nullptr, prop, "rtx-of-nothing", "packet %u of stream %u is resent, and was not sent", seq, ssrc);
            ctx.check(Bytes(r.payload.begin() + 2, r.payload.end()) == o->payload && r.ts == o->ts && r.marker == o->marker, prop, "rtx-content",
                      "packet %u of stream %u is resent with another content (%zu bytes of %zu), timestamp or marker", seq, ssrc, r.payload.size() - 2, o->payload.size());
            if (t.isSimulcast()) {
                const auto e = elements(r);
                ctx.check(e.count(1) && text(e.at(1)) == t.getMedia()->getId() && e.count(3) && text(e.at(3)) == t.getSimulcastLayer()->name,
                          prop, "rtx-layer", "a retransmission does not say which layer it is for");
            }
            again.push_back({ ssrc, seq });
        }
        ctx.check(s.ref.undecodable == 0, prop, "undecodable", "%zu packets cannot be decoded", s.ref.undecodable);
    }
};

Bytes nack(uint32_t ssrc, const std::vector<std::pair<uint16_t, uint16_t>>& items)
{
    Bytes b;
    put32(b, ssrc);
    for (const auto& i : items) {
        put16(b, i.first);
        put16(b, i.second);
    }
    return makeRtcp(1, 205, 77, b);
}

// What is asked for is resent, and nothing else
void resendScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    sim::Config config;
    config.links = RefPeer::links();
    sim::Guard guard(ctx, config);
    PubSetup u;
    const auto kind = ctx.choose(ctx.thorough() ? 8 : 4, "session");
    u.rtx = kind != 1 && kind != 4 && kind != 5 && kind != 6;
    u.simulcast = kind == 2 || kind == 3 || kind == 4 || kind == 6;
    u.bwe = kind == 3 || kind == 5 || kind == 6 || kind == 7;
    Solo s(ctx, srtc::Direction::Publish, true);
    publisher(s, u);
    ctx.check(s.connect(), "M09", "connect", "not connected");
    Wire w(s, u, "M09");
    const auto tracks = s.peer->answer->getTrackList();
    for (int i = 0; i < 3; i += 1) {
        for (const auto& t : tracks) {
            publish(s, t, t->getMediaType() == srtc::MediaType::Audio ? 90 : 4000, i);
        }
        s.ref.sleep(33000);
    }
    s.ref.sleep(100000);
    w.look();
    ctx.check(w.again.empty(), "M09", "unasked", "packets are resent that nobody asked for");
    // With a last frame still being sent
    const auto early = ctx.choose(2, "early") != 0;
    const auto target = static_cast<size_t>(ctx.choose(static_cast<int>(tracks.size()) + 2, "stream"));
    const auto& t = tracks[std::min(target, tracks.size() - 1)];
    const auto ssrc = target < tracks.size() ? t->getSSRC() : target == tracks.size() ? t->getRtxSSRC() : 4242u;
    auto& list = w.sent[t->getSSRC()];
    ctx.check(!list.empty(), "M09", "nothing", "nothing was sent");
    const auto first = list.front().seq, last = list.back().seq;
    const auto base = [&](const char* what) -> uint16_t {
        switch (ctx.choose(8, what)) {
        case 0:
            return first;
        case 1:
            return static_cast<uint16_t>(first - 1);
        case 2:
            return static_cast<uint16_t>(first - 16);
        case 3:
            return static_cast<uint16_t>(first + 1);
        case 4:
            return last;
        case 5:
            return static_cast<uint16_t>(last - 1);
        case 6:
            return static_cast<uint16_t>(last + 1);
        default:
            return static_cast<uint16_t>(first + 0x8000);
        }
    };
    static const uint16_t masks[] = { 0, 1, 0x8000, 0xffff, 0x5554, 3 };
    std::vector<std::pair<uint16_t, uint16_t>> items;
    items.emplace_back(base("from"), masks[ctx.choose(6, "mask")]);
    const auto more = ctx.choose(ctx.thorough() ? 4 : 3, "more");
    if (more == 1) {
        items.push_back(items.front());
    } else if (more == 3) {
        items.emplace_back(base("from, second"), masks[ctx.choose(6, "mask, second")]);
    }
    const auto times = more == 2 ? 2 : 1;
    if (early) {
        publish(s, tracks.front(), 4000, 9);
    }
    for (int k = 0; k < times; k += 1) {
        const auto before = w.again.size();
        s.ref.sendRtcp(nack(ssrc, items));
        // What has been sent when it arrives (10 ms later) is known at the end
        const auto arrives = env::nowUs() + 10000;
        s.ref.sleep(120000);
        w.look();
        std::map<uint16_t, size_t> want;
        if (target < tracks.size()) {
            for (const auto& i : items) {
                for (int b = -1; b < 16; b += 1) {
                    if (b >= 0 && !(i.second >> b & 1)) {
                        continue;
                    }
                    const auto seq = static_cast<uint16_t>(i.first + b + 1);
                    const auto* o = w.original(ssrc, seq);
                    // Received 10 ms after it was sent
                    if (o && o->atUs - 10000 < arrives) {
                        want[seq] += 1;
                    }
                }
            }
        }
        std::map<uint16_t, size_t> got;
        for (size_t i = before; i < w.again.size(); i += 1) {
            ctx.check(w.again[i].ssrc == ssrc, "M09", "other-stream", "a packet of another stream is resent");
            got[w.again[i].seq] += 1;
        }
        for (const auto& g : got) {
            ctx.check(want.count(g.first) && g.second <= want[g.first], "M09", "resent-unasked", "packet %u of stream %u is resent %zu times, asked for %zu times",
                      g.first, ssrc, g.second, want.count(g.first) ? want[g.first] : 0);
        }
        for (const auto& x : want) {
            ctx.check(got.count(x.first) != 0, "M09", "not-resent", "packet %u of stream %u is not resent", x.first, ssrc);
        }
        ctx.step();
        ctx.state(mc::mix(got.size(), want.size()));
    }
    ctx.outcome(mc::mix(w.again.size(), mc::mix(first, ssrc)));
}

// More than is remembered, and further than the numbers go
void overflowScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    sim::Config config;
    config.links = RefPeer::links();
    sim::Guard guard(ctx, config);
    PubSetup u;
    u.rtx = ctx.choose(2, "rtx") == 0;
    Solo s(ctx, srtc::Direction::Publish, false);
    publisher(s, u);
    ctx.check(s.connect(), "M09", "connect", "not connected");
    Wire w(s, u, "M09");
    const auto t = s.peer->answer->getTrackList().back();
    const auto other = s.peer->answer->getTrackList().front();
    const int n = ctx.choose(2, "how many") ? (ctx.thorough() ? 66000 : 3000) : 700;
    publish(s, other, 4000, 1);
    for (int i = 0; i < n; i += 1) {
        publish(s, t, 40, i & 255);
        s.ref.sleep(i % 16 == 0 ? 1000 : 50);
    }
    s.ref.sleep(100000);
    w.look();
    const auto& list = w.sent[t->getSSRC()];
    ctx.check(list.size() == static_cast<size_t>(n), "M09", "sent", "%zu packets of %d were sent", list.size(), n);
    for (const auto back : { 1, 2, 255, 256, 511, 512, 513, 600, 700, n }) {
        if (back > n) {
            continue;
        }
        const auto& o = list[list.size() - static_cast<size_t>(back)];
        const auto before = w.again.size();
        s.ref.sendRtcp(nack(t->getSSRC(), { { o.seq, 0 } }));
        s.ref.sleep(30000);
        w.look();
        const auto resent = w.again.size() - before;
        ctx.check(resent <= 1 && (resent == 0 || w.again.back().seq == o.seq), "M09", "resent-other", "%zu packets are resent", resent);
        // At least this many are remembered
        ctx.check(resent == 1 || back > 512, "M09", "forgotten", "the packet sent %d packets ago is not resent", back);
        ctx.step();
    }
    // The other stream is not affected
    const auto before = w.again.size();
    s.ref.sendRtcp(nack(other->getSSRC(), { { w.sent[other->getSSRC()].front().seq, 1 } }));
    s.ref.sleep(30000);
    w.look();
    ctx.check(w.again.size() - before == 2, "M09", "forgotten-other", "packets of another stream are forgotten");
    ctx.outcome(mc::mix(w.again.size(), static_cast<uint64_t>(n)));
    ctx.state(w.again.size());
}

// ----- Counts and times

// What the publisher says it sent is what it sent
void sentScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    sim::Config config;
    config.links = RefPeer::links();
    sim::Guard guard(ctx, config);
    PubSetup u;
    const auto kind = ctx.choose(3, "session");
    u.rtx = kind != 1;
    u.simulcast = kind == 2;
    u.bwe = kind == 2;
    Solo s(ctx, srtc::Direction::Publish, true);
    publisher(s, u);
    ctx.check(s.connect(), "M16", "connect", "not connected");
    Wire w(s, u, "M16");
    const auto tracks = s.peer->answer->getTrackList();
    struct Last {
        int64_t atUs;
        uint32_t ts;
    };
    std::map<uint32_t, Last> last;
    size_t reports = 0, stats = 0, frames = 0;
    std::map<uint32_t, std::pair<int64_t, uint64_t>> lastNtp;
    for (int period = 0; period < (ctx.thorough() ? 3 : 2); period += 1) {
        const auto video = ctx.choose(3, "video"), audio = ctx.choose(2, "audio");
        const auto ask = ctx.choose(4, "ask");
        for (const auto& t : tracks) {
            const auto isVideo = t->getMediaType() == srtc::MediaType::Video;
            const auto n = isVideo ? (video == 2 ? 3 : video) : audio * 2;
            for (int i = 0; i < n; i += 1) {
                publish(s, t, isVideo ? 2500 : 90, i);
                last[t->getSSRC()] = { env::nowUs(), 0 };
                frames += 1;
                s.ref.sleep(isVideo ? 33333 : 20000);
            }
        }
        s.ref.sleep(50000);
        w.look();
        for (auto& i : last) {
            i.second.ts = w.sent[i.first].back().ts;
        }
        for (const auto& t : tracks) {
            const auto& list = w.sent[t->getSSRC()];
            if (list.empty() || ask == 0) {
                continue;
            }
            s.ref.sendRtcp(nack(t->getSSRC(), ask == 1   ? std::vector<std::pair<uint16_t, uint16_t>>{ { list.front().seq, 0 } }
                                              : ask == 2 ? std::vector<std::pair<uint16_t, uint16_t>>{ { list.front().seq, 1 }, { list.back().seq, 0 } }
                                                         : std::vector<std::pair<uint16_t, uint16_t>>{ { static_cast<uint16_t>(list.back().seq + 9), 0xffff } }));
            s.ref.sleep(40000);
        }
        ctx.check(s.ref.waitFor([&] { return s.peer->pubStats.size() > stats; }, 6000000), "M16", "no-statistics", "no statistics for 6 s");
        const auto& st = s.peer->pubStats.back();
        stats = s.peer->pubStats.size();
        s.ref.sleep(50000);
        w.look();
        // To the application
        size_t packets = 0, bytes = 0;
        for (const auto& r : s.ref.rtp) {
            packets += 1;
            bytes += r.wire;
        }
        ctx.check(st.frame_count == frames, "M16", "frames-sent", "%zu frames were sent, %zu are reported", frames, st.frame_count);
        ctx.check(st.packet_count == packets, "M16", "packets-sent", "%zu packets were sent, %zu are reported", packets, st.packet_count);
        ctx.check(st.byte_count == bytes, "M16", "bytes-sent", "%zu bytes were sent, %zu are reported", bytes, st.byte_count);
        ctx.check(std::fabs(st.rtt_ms - 20.0f) < 1.0f, "M16", "rtt-ice", "the round trip takes %.2f ms, not 20 ms", static_cast<double>(st.rtt_ms));
        ctx.check(st.packets_lost_percent >= 0 && st.packets_lost_percent <= 100 && st.bandwidth_actual_kbit_per_second >= 0 && st.bandwidth_suggested_kbit_per_second >= 0,
                  "M16", "range", "statistics out of range");
        // To the other side
        std::map<uint32_t, int> got;
        for (; reports < s.ref.rtcp.size(); reports += 1) {
            const auto& r = s.ref.rtcp[reports];
            if (r.pt != 200) {
                continue;
            }
            ctx.check(r.body.size() == 20 && r.rc == 0, "M16", "report-size", "a report of %zu bytes, %u blocks", r.body.size(), r.rc);
            got[r.ssrc] += 1;
            std::shared_ptr<srtc::Track> t;
            for (const auto& i : tracks) {
                if (i->getSSRC() == r.ssrc) {
                    t = i;
                }
            }
            ctx.check(t != nullptr, "M16", "report-stream", "a report about stream %u", r.ssrc);
            uint32_t n = 0, octets = 0;
            for (size_t i = 0; i < r.rtpSeen; i += 1) {
                const auto& p = s.ref.rtp[i];
                if (p.ssrc == r.ssrc || (u.rtx && p.ssrc == t->getRtxSSRC())) {
                    n += 1;
                    octets += static_cast<uint32_t>(p.wire);
                }
            }
            ctx.check(be32(r.body, 12) == n, "M16", "reported-packets", "stream %u: %u packets were sent, %u are reported", r.ssrc, n, be32(r.body, 12));
            ctx.check(be32(r.body, 16) == octets, "M16", "reported-bytes", "stream %u: %u bytes were sent, %u are reported", r.ssrc, octets, be32(r.body, 16));
            // The same instant in both clocks
            const auto ntp = static_cast<uint64_t>(be32(r.body, 0)) << 32 | be32(r.body, 4);
            const auto sentAt = r.atUs - 10000;
            if (const auto i = lastNtp.find(r.ssrc); i != lastNtp.end()) {
                const auto us = static_cast<double>(ntp - i->second.second) * 1e6 / 4294967296.0;
                ctx.check(std::fabs(us - static_cast<double>(sentAt - i->second.first)) < 2000, "M16", "report-clock", "stream %u: %.0f us between reports, reported as %.0f us",
                          r.ssrc, static_cast<double>(sentAt - i->second.first), us);
            }
            lastNtp[r.ssrc] = { sentAt, ntp };
            if (const auto i = last.find(r.ssrc); i != last.end()) {
                const auto want = i->second.ts + static_cast<uint32_t>((sentAt - i->second.atUs) * t->getClockRate() / 1000000);
                const auto d = static_cast<int32_t>(be32(r.body, 8) - want);
                ctx.check(std::abs(d) <= static_cast<int>(t->getClockRate() / 100), "M16", "report-timestamp", "stream %u: the report's RTP time is off by %d units", r.ssrc, d);
            }
        }
        for (const auto& t : tracks) {
            ctx.check(got[t->getSSRC()] == 1, "M16", "report-missing", "stream %u: %d reports in a period", t->getSSRC(), got[t->getSSRC()]);
        }
        ctx.step();
        ctx.state(mc::mix(packets, bytes));
    }
    ctx.outcome(mc::mix(s.ref.rtp.size(), frames));
}

Bytes reportBlock(uint32_t ssrc, uint32_t lastSr, uint32_t delay)
{
    Bytes b;
    put32(b, ssrc);
    put32(b, 0x01000003);
    put32(b, 0x12345);
    put32(b, 17);
    put32(b, lastSr);
    put32(b, delay);
    return b;
}

// Round trips are measured by echoes of reports that were sent, and nothing else
void echoScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    sim::Config config;
    config.links = RefPeer::links();
    sim::Guard guard(ctx, config);
    const auto pub = ctx.choose(2, "direction") == 0;
    Solo s(ctx, pub ? srtc::Direction::Publish : srtc::Direction::Subscribe, true);
    if (pub) {
        publisher(s, {});
    } else {
        const RefSession c(true);
        s.subscribe(c.po, c.pm, c.so, c.sm);
    }
    ctx.check(s.connect(), "M16", "connect", "not connected");
    // Reports sent: by stream, in the order sent
    struct Sent {
        uint32_t mark;
        int64_t atUs;
        bool used = false;
    };
    std::map<uint32_t, std::vector<Sent>> sent;
    std::vector<uint32_t> streams;
    size_t seen = 0, stats = 0;
    const auto look = [&] {
        for (; seen < s.ref.rtcp.size(); seen += 1) {
            const auto& r = s.ref.rtcp[seen];
            uint64_t ntp;
            if (pub && r.pt == 200 && r.body.size() >= 8) {
                ntp = static_cast<uint64_t>(be32(r.body, 0)) << 32 | be32(r.body, 4);
            } else if (!pub && r.pt == 207 && r.body.size() >= 12 && r.body[0] == 4) {
                ntp = static_cast<uint64_t>(be32(r.body, 4)) << 32 | be32(r.body, 8);
            } else {
                continue;
            }
            if (sent.count(r.ssrc) == 0) {
                streams.push_back(r.ssrc);
            }
            sent[r.ssrc].push_back({ static_cast<uint32_t>(ntp >> 16), r.atUs - 10000 });
        }
    };
    struct Sample {
        int64_t atUs;
        double ms;
    };
    std::vector<Sample> samples;
    const auto moves = ctx.thorough() ? 3 : 2;
    const auto waitStats = [&] {
        const auto n = pub ? s.peer->pubStats.size() : s.peer->subStats.size();
        ctx.check(s.ref.waitFor([&] { return (pub ? s.peer->pubStats.size() : s.peer->subStats.size()) > n; }, 6000000), "M16", "no-statistics", "no statistics for 6 s");
        const auto now = env::nowUs();
        const auto rtt = static_cast<double>(pub ? s.peer->pubStats.back().rtt_ms : s.peer->subStats.back().rtt_ms);
        s.ref.sleep(50000);
        look();
        stats += 1;
        double lo = 1e9, hi = -1;
        int64_t recent = -10000000;
        for (const auto& i : samples) {
            lo = std::min(lo, i.ms);
            hi = std::max(hi, i.ms);
            recent = std::max(recent, i.atUs);
        }
        // For how long a measurement is recent, give or take
        if (now - recent > 5100000) {
            lo = hi = 20.0;
        } else if (now - recent > 4900000) {
            lo = std::min(lo, 20.0);
            hi = std::max(hi, 20.0);
        }
        ctx.log("%8.1f ms: rtt %.2f ms, expected %.2f to %.2f ms", static_cast<double>(now) / 1000.0, rtt, lo, hi);
        ctx.check(rtt >= lo - 1 && rtt <= hi + 1, "M16", "rtt", "the round trip is reported as %.2f ms, and is %.2f to %.2f ms", rtt, lo, hi);
        ctx.state(mc::mix(static_cast<uint64_t>(rtt * 10), stats));
    };
    waitStats();
    if (ctx.choose(2, "second report")) {
        waitStats();
    }
    for (int k = 0; k < moves; k += 1) {
        static const int64_t waits[] = { 1000, 300000, 2000000 };
        const auto wait = ctx.choose(ctx.thorough() ? 3 : 2, "wait");
        s.ref.sleep(waits[wait]);
        look();
        ctx.check(!streams.empty(), "M16", "no-reports", "no reports are sent");
        const auto what = ctx.choose(7, "echo");
        const auto other = streams.size() > 1 && (ctx.thorough() || what == 0) && ctx.choose(2, "stream") != 0;
        const auto stream = streams[other ? 1 : 0];
        const auto& list = sent[stream];
        uint32_t mark = list.back().mark, ssrc = stream;
        switch (what) {
        case 1:
            mark = list.front().mark;
            break;
        case 2:
            mark += 1;
            break;
        case 3:
            mark = 0;
            break;
        case 4:
            ssrc = 4242;
            break;
        case 5:
            mark += 0x10000;
            break;
        default:
            break;
        }
        Sent* report = nullptr;
        if (const auto i = sent.find(ssrc); i != sent.end()) {
            for (auto& r : i->second) {
                if (r.mark == mark) {
                    report = &r;
                }
            }
        }
        const auto arrives = env::nowUs() + 10000;
        const auto elapsed = arrives - (report ? report->atUs : list.back().atUs);
        int64_t delayUs = 0;
        auto delay = 0u;
        switch (ctx.thorough() || what == 0 ? ctx.choose(4, "delay") : what == 1 ? ctx.choose(2, "delay") : 0) {
        case 0: // A round trip of 50 ms
            delayUs = elapsed - 50000;
            break;
        case 1:
            delayUs = 0;
            break;
        case 2:
            delayUs = elapsed + 1000000;
            break;
        case 3:
            delay = 0xffffffff;
            delayUs = 65536000000;
            break;
        }
        if (delayUs < 0) {
            delayUs = 0;
        }
        if (delay == 0) {
            delay = static_cast<uint32_t>(delayUs * 65536 / 1000000);
        }
        Bytes m;
        if (pub) {
            auto block = reportBlock(ssrc, mark, delay);
            if (what == 6) {
                block.resize(20); // cut off
            }
            m = makeRtcp(1, 201, 77, block);
        } else {
            Bytes block = { 5, 0, 0, 3 };
            put32(block, ssrc);
            put32(block, mark);
            put32(block, delay);
            if (what == 6) {
                block[3] = 2;
                block.resize(12);
            }
            m = makeRtcp(0, 207, 77, block);
        }
        s.ref.sendRtcp(m);
        // Marks are the middle bits, an echo of 0 is "none yet"
        if (report && what != 6 && mark != 0) {
            if (!report->used && elapsed >= delayUs) {
                samples.push_back({ arrives, static_cast<double>(elapsed - delayUs) / 1000.0 });
            }
            report->used = true;
        }
        s.ref.sleep(30000);
        ctx.step();
        // In the same period, or not
        if (k + 1 == moves || ctx.choose(2, "then")) {
            waitStats();
        }
    }
    waitStats();
    waitStats();
    ctx.outcome(mc::mix(samples.size(), stats));
}

// Receivers which ask when (RRTR) are told how long ago (DLRR)
void askedScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    sim::Config config;
    config.links = RefPeer::links();
    sim::Guard guard(ctx, config);
    Solo s(ctx, srtc::Direction::Publish, true);
    publisher(s, {});
    ctx.check(s.connect(), "M16", "connect", "not connected");
    std::set<uint32_t> own;
    for (const auto& t : s.peer->answer->getTrackList()) {
        own.insert(t->getSSRC());
    }
    struct Asked {
        uint32_t ssrc, mark;
        int64_t atUs;
        bool done = false; // answered, or asked again
    };
    std::vector<Asked> pending;
    size_t seen = 0, answers = 0;
    const auto look = [&] {
        for (; seen < s.ref.rtcp.size(); seen += 1) {
            const auto& r = s.ref.rtcp[seen];
            if (r.pt != 207) {
                continue;
            }
            ctx.check(own.count(r.ssrc) == 1, "M16", "answer-sender", "an extended report of stream %u", r.ssrc);
            ctx.check(!r.body.empty() && r.body.size() <= 1200, "M16", "answer-size", "an extended report of %zu bytes", r.body.size());
            for (size_t at = 0; at < r.body.size();) {
                ctx.check(at + 4 <= r.body.size(), "M16", "answer-malformed", "an extended report is cut off");
                const auto type = r.body[at];
                const size_t n = 4u * be16(r.body, at + 2);
                at += 4;
                ctx.check(at + n <= r.body.size() && type == 5 && n % 12 == 0, "M16", "answer-malformed", "a block of type %u, %zu bytes", type, n);
                for (const auto end = at + n; at < end; at += 12) {
                    const auto ssrc = be32(r.body, at), mark = be32(r.body, at + 4), delay = be32(r.body, at + 8);
                    const auto sentAt = r.atUs - 10000;
                    // The latest it had asked then
                    auto i = std::find_if(pending.rbegin(), pending.rend(), [&](const Asked& a) { return a.ssrc == ssrc && a.atUs <= sentAt; });
                    ctx.check(i != pending.rend() && !i->done, "M16", "answer-unasked", "receiver %u is answered, and has not asked", ssrc);
                    ctx.check(i->mark == mark, "M16", "answer-mark", "receiver %u asked at %08x, the answer is for %08x", ssrc, i->mark, mark);
                    const auto us = static_cast<double>(delay) * 1e6 / 65536, want = static_cast<double>(sentAt - i->atUs);
                    ctx.check(std::fabs(us - want) < 2000, "M16", "answer-delay", "receiver %u asked %.0f us ago, is told %.0f us", ssrc, want, us);
                    for (auto& a : pending) {
                        a.done = a.done || (a.ssrc == ssrc && a.atUs <= sentAt);
                    }
                    answers += 1;
                }
            }
        }
    };
    uint32_t next = 1000, clock = 7;
    // How many wait, of which only 100 are remembered
    const auto open = [&] {
        std::set<uint32_t> set;
        for (const auto& a : pending) {
            if (a.done) {
                set.erase(a.ssrc);
            } else {
                set.insert(a.ssrc);
            }
        }
        return set.size();
    };
    const auto moves = ctx.thorough() ? 4 : 3;
    size_t asks = 0, forgotten = 0;
    for (int k = 0; k < moves; k += 1) {
        // Whom, in what
        const auto what = ctx.choose(8, "asks");
        Bytes compound;
        const auto ask = [&](uint32_t ssrc, int form) {
            clock += 0x01234567;
            const uint32_t seconds = 0xe0000000 + clock / 3, fraction = clock * 77;
            Bytes block;
            if (form == 1) { // after a block of another kind
                put32(block, 0x06000001);
                put32(block, 0xffffffff);
            }
            if (form == 4) { // after a long one of another kind, which looks like more
                put32(block, 0x06000000 | 64);
                for (int i = 0; i < 32; i += 1) {
                    put32(block, 0x04000002);
                    put32(block, 0x55555555);
                }
            }
            put32(block, form == 2 ? 0x04000001 : 0x04000002);
            put32(block, seconds);
            if (form != 2) {
                put32(block, fraction);
            }
            if (form == 3) { // before a block which is cut off
                put32(block, 0x04000005);
                put32(block, 1);
            }
            put(compound, makeRtcp(0, 207, ssrc, block));
            if (form == 2) {
                return;
            }
            pending.push_back({ ssrc, static_cast<uint32_t>((static_cast<uint64_t>(seconds) << 32 | fraction) >> 16), env::nowUs() + 10000 });
            asks += 1;
        };
        switch (what) {
        case 0:
            ask(next++, 0);
            break;
        case 1:
            ask(1000, 1);
            break;
        case 2:
            ask(next++, 4);
            ask(next++, 3);
            ask(1000, 0);
            break;
        case 3:
            ask(1000, 2);
            break;
        case 4:
            for (int i = 0; i < 24; i += 1) {
                ask(next++, 0);
            }
            break;
        case 5:
            for (int i = 0; i < 26; i += 1) {
                ask(next++, 0);
            }
            break;
        case 6:
            break;
        case 7:
            for (int i = 0; i < 44; i += 1) {
                ask(next++, 0);
            }
            break;
        }
        if (!compound.empty()) {
            s.ref.sendRtcp(compound);
        }
        if (const auto n = open(); n > 100) {
            forgotten = std::max(forgotten, n - 100);
        }
        static const int64_t waits[] = { 15000, 2600000, 5200000 };
        s.ref.sleep(waits[ctx.choose(ctx.thorough() ? 3 : 2, "wait")]);
        look();
        ctx.step();
        ctx.state(mc::mix(asks, answers * 64 + static_cast<size_t>(k)));
    }
    // All are answered, as far as they are remembered
    const auto left = open();
    const auto due = left > forgotten ? left - forgotten : 0;
    const auto had = answers;
    s.ref.sleep(21000000);
    look();
    ctx.check(answers - had >= due, "M16", "unanswered", "%zu of %zu receivers are not answered", due - (answers - had), left);
    ctx.outcome(mc::mix(answers, asks));
}

// The delay since the last sender report, whatever time has passed since it
void quietScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    sim::Config config;
    config.links = RefPeer::links();
    sim::Guard guard(ctx, config);
    Solo s(ctx, srtc::Direction::Subscribe, ctx.choose(2, "role") != 0);
    RefSession c(true);
    s.subscribe(c.po, c.pm, c.so, c.sm);
    ctx.check(s.connect(), "M16", "connect", "not connected");
    const auto track = s.track(ctx.choose(2, "stream") ? srtc::MediaType::Video : srtc::MediaType::Audio);
    std::vector<std::pair<int64_t, uint32_t>> sent; // when it arrived, and its mark
    size_t seen = 0, blocks = 0;
    const auto look = [&] {
        for (; seen < s.ref.rtcp.size(); seen += 1) {
            const auto& r = s.ref.rtcp[seen];
            for (size_t at = 0; r.pt == 201 && at + 24 <= r.body.size(); at += 24) {
                const auto sentAt = r.atUs - 10000;
                const std::pair<int64_t, uint32_t>* last = nullptr;
                for (const auto& i : sent) {
                    if (be32(r.body, at) == track->getSSRC() && i.first <= sentAt) {
                        last = &i;
                    }
                }
                blocks += 1;
                const auto mark = be32(r.body, at + 16), delay = be32(r.body, at + 20);
                if (last == nullptr) {
                    ctx.check(mark == 0 && delay == 0, "M16", "no-last-report", "a report is echoed that was not sent");
                    continue;
                }
                const auto d = static_cast<double>(delay) / 65.536 - static_cast<double>(sentAt - last->first) / 1000.0;
                ctx.check(mark == last->second, "M16", "last-report", "the last report is not the one received last");
                ctx.check(std::fabs(d) < 2, "M16", "last-report-delay", "the delay since the last report is off by %.1f ms after %.1f ms", d, static_cast<double>(sentAt - last->first) / 1000.0);
            }
        }
    };
    static const int64_t waits[] = { 3000, 5100, 34000, 131500, 300, 70000 };
    for (int i = 0; i < (ctx.thorough() ? 4 : 2); i += 1) {
        Bytes b;
        const auto ntp = static_cast<uint64_t>(env::nowUs()) * 4295 + (1ull << 60) + (ctx.choose(2, "fraction") ? 0xffff8000 : 0);
        put32(b, static_cast<uint32_t>(ntp >> 32));
        put32(b, static_cast<uint32_t>(ntp));
        put32(b, 1000);
        put32(b, 5);
        put32(b, 500);
        s.ref.sendRtcp(makeRtcp(0, 200, track->getSSRC(), b));
        sent.emplace_back(env::nowUs() + 10000, static_cast<uint32_t>(ntp >> 16));
        s.ref.sleep(waits[ctx.choose(ctx.thorough() ? 6 : 4, "wait")] * 1000);
        look();
        ctx.step();
        ctx.state(mc::mix(blocks, static_cast<uint64_t>(i)));
    }
    s.ref.sleep(5100000);
    look();
    ctx.check(blocks > 0, "M16", "report-missing", "no reports are sent");
    ctx.outcome(mc::mix(blocks, sent.size()));
}

// What the subscriber says it received is what it received
void receivedScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    sim::Config config;
    config.links = RefPeer::links();
    sim::Guard guard(ctx, config);
    const auto start = ctx.choose(ctx.thorough() ? 3 : 2, "start");
    Solo s(ctx, srtc::Direction::Subscribe, start != 0);
    RefSession c(true);
    c.so.jitter_buffer_length_millis = 100;
    s.subscribe(c.po, c.pm, c.so, c.sm);
    ctx.check(s.connect(), "M16", "connect", "not connected");
    const auto video = s.track(srtc::MediaType::Video), audio = s.track(srtc::MediaType::Audio);
    static const uint16_t starts[] = { 65533, 0, 100 };
    struct Stream {
        std::shared_ptr<srtc::Track> track;
        uint64_t next = 0;
        std::set<uint64_t> got;
        uint64_t first = 0, highest = 0;
        uint16_t rtxSeq = 7;
        std::map<uint64_t, uint32_t> timestamps;
        uint32_t ts = 1000;
        bool any = false;
        int64_t srAtUs = -1;
        uint32_t srMark = 0;
        std::pair<uint64_t, uint64_t> reported{}; // true and reported highest
        bool hasReported = false;
        std::map<uint16_t, int> asked;
        std::set<uint64_t> missing;
    };
    Stream v, a;
    v.track = video;
    a.track = audio;
    v.next = starts[start];
    a.next = 65535;
    size_t packets = 0, bytes = 0, frames = 0, seen = 0;
    const auto payload = [&](bool isVideo, uint64_t seq) {
        Bytes p = { 0x10, 0x10, 2, 0, 0x9d, 1, 0x2a, 0x40, 1, 0xb4, 0 };
        if (!isVideo) {
            p = mcu::pattern(3, seq, 20);
        }
        return p;
    };
    const auto emit = [&](Stream& x, uint64_t seq, bool rtx, bool malformed = false) {
        const auto isVideo = x.track == video;
        auto p = payload(isVideo, seq);
        if (rtx) {
            Bytes wrapped;
            put16(wrapped, static_cast<uint16_t>(seq));
            put(wrapped, p);
            p = wrapped;
        }
        auto m = makeRtp(static_cast<uint8_t>(rtx ? x.track->getRtxPayloadId() : x.track->getPayloadId()),
                         rtx ? x.rtxSeq++ : static_cast<uint16_t>(seq), x.timestamps[seq], rtx ? x.track->getRtxSSRC() : x.track->getSSRC(), true, p);
        if (malformed) {
            m[0] |= 0x20; // padded by more than there is
            m.back() = 200;
        }
        s.ref.sendRtp(m, rtx ? 0 : static_cast<uint32_t>(seq >> 16));
        if (!malformed) {
            packets += 1;
            bytes += m.size() + 10;
            if (!x.any || seq > x.highest) {
                x.highest = seq;
            }
            if (!x.any) {
                x.first = seq;
            }
            x.any = true;
            if (x.got.insert(seq).second) {
                frames += 1;
            }
        }
    };
    const auto report = [&](Stream& x) {
        Bytes b;
        const auto ntp = static_cast<uint64_t>(env::nowUs()) * 4295 + (1ull << 60);
        put32(b, static_cast<uint32_t>(ntp >> 32));
        put32(b, static_cast<uint32_t>(ntp));
        put32(b, x.ts);
        put32(b, 5);
        put32(b, 500);
        s.ref.sendRtcp(makeRtcp(0, 200, x.track->getSSRC(), b));
        x.srAtUs = env::nowUs() + 10000;
        x.srMark = static_cast<uint32_t>(ntp >> 16);
    };
    size_t stats = 0;
    for (int period = 0; period < 2; period += 1) {
        const auto n = ctx.thorough() && period == 0 ? 3 : 2;
        for (int i = 0; i < n; i += 1) {
            const auto now = [&](Stream& x) {
                const auto rate = x.track->getClockRate();
                x.ts = std::max(x.ts + rate / 100, static_cast<uint32_t>(env::nowUs() * rate / 1000000));
                x.timestamps[x.next] = x.ts;
                return x.next++;
            };
            switch (ctx.choose(8, "move")) {
            case 0:
                emit(v, now(v), false);
                break;
            case 1: // One of three is lost for good
                emit(v, now(v), false);
                v.missing.insert(now(v));
                emit(v, now(v), false);
                break;
            case 2: { // One is resent
                emit(v, now(v), false);
                const auto lost = now(v);
                v.missing.insert(lost);
                emit(v, now(v), false);
                s.ref.sleep(30000);
                emit(v, lost, true);
                break;
            }
            case 3: { // Two change places
                emit(v, now(v), false);
                const auto x = now(v), y = now(v);
                emit(v, y, false);
                emit(v, x, false);
                break;
            }
            case 4: { // Resent though it arrived
                const auto x = now(v);
                emit(v, x, false);
                s.ref.sleep(15000);
                emit(v, x, true);
                break;
            }
            case 5:
                emit(a, now(a), false);
                report(a);
                break;
            case 6:
                report(v);
                break;
            case 7: // Not a media packet
                v.timestamps[v.next] = v.ts;
                emit(v, v.next, true, true);
                s.ref.sendRtp(makeRtp(static_cast<uint8_t>(video->getPayloadId()), 77, 1, 4242, true, payload(true, 0)));
                s.ref.sendRtp(makeRtp(static_cast<uint8_t>(video->getPayloadId() ^ 1), 9, 1, audio->getSSRC(), true, payload(true, 0)), 0);
                break;
            }
            s.ref.sleep(150000);
            ctx.step();
        }
        ctx.check(s.ref.waitFor([&] { return s.peer->subStats.size() > stats; }, 6000000), "M16", "no-statistics", "no statistics for 6 s");
        const auto st = s.peer->subStats.back();
        stats = s.peer->subStats.size();
        s.ref.sleep(50000);
        const auto lost = v.missing.size() + a.missing.size();
        ctx.check(st.packet_count == packets, "M16", "packets-received", "%zu packets were received, %zu are reported", packets, st.packet_count);
        ctx.check(st.byte_count == bytes, "M16", "bytes-received", "%zu bytes were received, %zu are reported", bytes, st.byte_count);
        ctx.check(st.frame_count == s.peer->frames.size(), "M16", "frames-received", "%zu frames were received, %zu are reported", s.peer->frames.size(), st.frame_count);
        ctx.check(st.frame_count == frames, "M16", "frames-lost", "%zu frames of %zu were received", st.frame_count, frames);
        const auto percent = lost ? static_cast<double>(lost) * 100.0 / static_cast<double>(packets + lost) : 0.0;
        ctx.check(std::fabs(static_cast<double>(st.packets_lost_percent) - percent) < 0.01, "M16", "loss", "%zu packets were lost of %zu, reported as %.2f %%", lost, packets + lost,
                  static_cast<double>(st.packets_lost_percent));
        ctx.check(std::fabs(static_cast<double>(st.rtt_ms) - 20.0) < 1, "M16", "rtt-ice", "the round trip takes %.2f ms, not 20 ms", static_cast<double>(st.rtt_ms));
        // To the other side
        auto blocks = 0;
        for (; seen < s.ref.rtcp.size(); seen += 1) {
            const auto& r = s.ref.rtcp[seen];
            if (r.pt == 205 && r.rc == 1) {
                ctx.check(r.body.size() == 8, "M16", "nack-size", "a request of %zu bytes", r.body.size());
                auto& x = be32(r.body, 0) == video->getSSRC() ? v : a;
                const auto seq = be16(r.body, 4), mask = be16(r.body, 6);
                for (int b = -1; b < 16; b += 1) {
                    if (b < 0 || (mask >> b & 1)) {
                        x.asked[static_cast<uint16_t>(seq + b + 1)] += 1;
                    }
                }
                continue;
            }
            if (r.pt != 201) {
                continue;
            }
            ctx.check(r.body.size() == 24u * r.rc, "M16", "report-size", "a report of %zu bytes, %u blocks", r.body.size(), r.rc);
            for (size_t at = 0; at + 24 <= r.body.size(); at += 24) {
                const auto ssrc = be32(r.body, at);
                ctx.check(ssrc == video->getSSRC() || ssrc == audio->getSSRC(), "M16", "report-stream", "a report about stream %u", ssrc);
                auto& x = ssrc == video->getSSRC() ? v : a;
                blocks += 1;
                const auto ext = be32(r.body, at + 8);
                if (x.any) {
                    ctx.check((ext & 0xffff) == (x.highest & 0xffff), "M16", "highest", "the highest number received is %u, reported as %u", static_cast<unsigned>(x.highest & 0xffff), ext & 0xffff);
                    if (x.hasReported) {
                        ctx.check(ext - x.reported.second == static_cast<uint32_t>(x.highest - x.reported.first), "M16", "highest-cycles",
                                  "the highest number received went from %llu to %llu, reported as from %llu to %u", static_cast<unsigned long long>(x.reported.first),
                                  static_cast<unsigned long long>(x.highest), static_cast<unsigned long long>(x.reported.second), ext);
                    }
                    x.reported = { x.highest, ext };
                    x.hasReported = true;
                    // Resent packets are of another stream: what was lost stays so
                    const auto cumulative = be32(r.body, at + 4) & 0xffffff;
                    const auto fraction = r.body[at + 4];
                    const auto gone = static_cast<uint32_t>(x.missing.size());
                    if (cumulative != 0 || fraction != 0 || gone == 0 || !ctx.tolerate("M16", "loss-to-peer")) {
                        ctx.check(cumulative == gone, "M16", "loss-reported", "%u packets were lost, %u are reported", gone, cumulative);
                    }
                }
                if (x.srAtUs >= 0) {
                    const auto d = static_cast<double>(be32(r.body, at + 20)) / 65.536 - static_cast<double>(r.atUs - 10000 - x.srAtUs) / 1000.0;
                    ctx.check(be32(r.body, at + 16) == x.srMark, "M16", "last-report", "the last report is not the one received last");
                    ctx.check(std::fabs(d) < 2, "M16", "last-report-delay", "the delay since the last report is off by %.1f ms", d);
                } else {
                    ctx.check(be32(r.body, at + 16) == 0 && be32(r.body, at + 20) == 0, "M16", "no-last-report", "a report is echoed that was not sent");
                }
            }
        }
        ctx.check(blocks == 2, "M16", "report-missing", "%d report blocks in a period", blocks);
        for (auto* x : { &v, &a }) {
            for (const auto& i : x->asked) {
                ctx.check(i.second == 1, "M16", "asked-again", "packet %u is asked for %d times", i.first, i.second);
            }
            size_t n2 = 0;
            for (const auto m : x->missing) {
                n2 += x->asked.count(static_cast<uint16_t>(m));
            }
            ctx.check(n2 == x->missing.size() && x->asked.size() == n2, "M16", "asked-for", "%zu packets are missing, %zu of them and %zu in all are asked for", x->missing.size(), n2, x->asked.size());
        }
        ctx.state(mc::mix(packets, mc::mix(lost, frames)));
    }
    ctx.outcome(mc::mix(packets, mc::mix(bytes, frames)));
}

// ----- Packets of reports

srtc::ByteBuffer toBuf(const Bytes& b)
{
    const mcu::Exact e(b);
    return { e.data(), e.size() };
}

// What is written is what is read
void compoundsScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    static const size_t sizes[] = { 0, 4, 8, 20, 1, 2, 3, 5, 1192, 1196, 65528, 262136 };
    static const uint8_t rcs[] = { 0, 1, 31, 15 };
    static const uint8_t pts[] = { 200, 206, 192, 255 };
    static const uint32_t ssrcs[] = { 0, 1, 0x80000000, 0xffffffff };
    const auto n = 1 + ctx.choose(3, "packets");
    std::vector<std::shared_ptr<srtc::RtcpPacket>> list;
    std::vector<Bytes> payloads;
    const auto total = n == 1 ? 12 : n == 2 ? 10 : ctx.thorough() ? 8 : 5;
    for (int i = 0; i < n; i += 1) {
        const auto size = sizes[ctx.choose(total, "size")];
        const auto field = n == 1 ? ctx.choose(64, "fields") : ctx.choose(4, "fields") * 21;
        payloads.push_back(mcu::pattern(11, static_cast<uint64_t>(i), size));
        list.push_back(std::make_shared<srtc::RtcpPacket>(ssrcs[field >> 4], rcs[field & 3], pts[field >> 2 & 3], toBuf(payloads.back())));
    }
    const auto bytes = mcu::toBytes(n == 1 ? list[0]->generate() : srtc::RtcpPacketMulti(list).generate());
    ctx.check(bytes.size() % 4 == 0, "M14", "alignment", "%zu bytes", bytes.size());
    // Read by us, and read by it
    std::vector<Rtcp> ours;
    ctx.check(parseRtcp(bytes, ours) && ours.size() == list.size(), "M14", "written", "%zu packets are written, %zu are read", list.size(), ours.size());
    const auto theirs = srtc::RtcpPacket::fromUdpPacket(toBuf(bytes));
    ctx.check(theirs.size() == list.size(), "M14", "read-back", "%zu packets are written, %zu are read back", list.size(), theirs.size());
    size_t i = 0;
    for (const auto& p : theirs) {
        const auto got = mcu::toBytes(p->getPayload());
        auto want = payloads[i];
        want.resize((want.size() + 3) / 4 * 4);
        ctx.check(p->getSSRC() == list[i]->getSSRC() && p->getRC() == list[i]->getRC() && p->getPayloadId() == list[i]->getPayloadId(), "M14", "header", "packet %zu: ssrc %u, rc %u, pt %u", i,
                  p->getSSRC(), p->getRC(), p->getPayloadId());
        ctx.check(got == want, "M14", "payload", "packet %zu: %zu bytes instead of %zu", i, got.size(), want.size());
        ctx.check(ours[i].ssrc == p->getSSRC() && ours[i].rc == p->getRC() && ours[i].pt == p->getPayloadId() && ours[i].body == want, "M14", "written-other", "packet %zu is written as another", i);
        i += 1;
    }
    ctx.step();
    ctx.state(mc::mix(bytes.size(), static_cast<uint64_t>(n)));
    ctx.outcome(mcu::hashBytes(bytes));
}

// Whatever the bytes are: the packets before the first that is malformed are read, and nothing else happens
void readAny(mc::Ctx& ctx, const Bytes& b)
{
    const auto theirs = srtc::RtcpPacket::fromUdpPacket(toBuf(b));
    size_t at = 0, total = 0;
    auto i = theirs.begin();
    while (at + 8 <= b.size() && b[at] >> 6 == 2) {
        const size_t n = 4u * (be16(b, at + 2) + 1u);
        if (n < 8 || at + n > b.size()) {
            break;
        }
        size_t end = at + n;
        if (b[at] & 0x20) {
            const auto pad = b[end - 1];
            if (pad == 0 || pad % 4 != 0 || pad > n - 8) {
                break;
            }
            end -= pad;
        }
        ctx.check(i != theirs.end(), "M14", "not-read", "the packet at %zu of %zu bytes is not read", at, b.size());
        const auto& p = **i;
        ctx.check(p.getSSRC() == be32(b, at + 4) && p.getRC() == (b[at] & 31) && p.getPayloadId() == b[at + 1] &&
                      mcu::toBytes(p.getPayload()) == Bytes(b.begin() + static_cast<long>(at + 8), b.begin() + static_cast<long>(end)),
                  "M14", "misread", "the packet at %zu of %zu bytes is misread", at, b.size());
        ++i;
        at += n;
    }
    for (const auto& p : theirs) {
        total += 8 + p->getPayload().size();
    }
    ctx.check(total <= b.size(), "M14", "more-than-there-is", "%zu bytes are read of %zu", total, b.size());
    ctx.step();
    ctx.outcome(mc::mix(theirs.size(), total));
}

void bytesScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    if (ctx.choose(2, "kind") == 0) {
        // Every string of up to three words over first bytes, lengths and last bytes that matter
        static const uint8_t heads[] = { 0x80, 0xa0, 0x81, 0xbf, 0x00, 0xff };
        static const uint16_t lengths[] = { 0, 1, 2, 3, 4, 5, 0x7fff, 0x8000, 0xffff };
        static const uint8_t tails[] = { 0, 1, 4, 8, 12, 255 };
        const auto size = static_cast<size_t>(ctx.choose(30, "size"));
        const auto h1 = heads[ctx.choose(6, "head")];
        const auto l1 = lengths[ctx.choose(9, "length")];
        for (const auto h2 : heads) {
            for (const auto l2 : lengths) {
                for (const auto t1 : tails) {
                    for (const auto t2 : tails) {
                        auto b = mcu::pattern(5, 1, size);
                        const auto set = [&](size_t at, uint8_t v) {
                            if (at < b.size()) {
                                b[at] = v;
                            }
                        };
                        const auto second = 4u * (l1 + 1u);
                        set(0, h1);
                        set(2, static_cast<uint8_t>(l1 >> 8));
                        set(3, static_cast<uint8_t>(l1));
                        set(second - 1 >= 8 ? second - 1 : b.size(), t1);
                        set(second, h2);
                        set(second + 2, static_cast<uint8_t>(l2 >> 8));
                        set(second + 3, static_cast<uint8_t>(l2));
                        if (!b.empty() && b.size() - 1 > second + 3) {
                            b.back() = t2;
                        }
                        readAny(ctx, b);
                    }
                }
            }
        }
    } else {
        // A compound of three, with any one byte changed to anything, cut off, continued
        Bytes b;
        put(b, makeRtcp(1, 201, 7, reportBlock(1, 2, 3)));
        put(b, makeRtcp(1, 205, 7, mcu::pattern(1, 1, 8)));
        auto last = makeRtcp(1, 206, 7, mcu::pattern(1, 2, 4));
        if (ctx.choose(2, "padding")) {
            last[0] |= 0x20;
            last[3] += 1;
            put(last, { 0, 0, 0, 4 });
        }
        put(b, last);
        const auto at = static_cast<size_t>(ctx.choose(static_cast<int>(b.size()), "at"));
        for (int v = 0; v < 256; v += 1) {
            auto c = b;
            c[at] = static_cast<uint8_t>(v);
            readAny(ctx, c);
            if (ctx.thorough()) {
                for (const size_t other : { 2, 3, 34, 35, 50, 51 }) {
                    for (const auto w : { 0, 1, 4, 255 }) {
                        auto d = c;
                        d[other] = static_cast<uint8_t>(w);
                        readAny(ctx, d);
                    }
                }
            }
        }
        for (size_t n = 0; n <= at; n += 1) {
            readAny(ctx, Bytes(b.begin() + static_cast<long>(n), b.begin() + static_cast<long>(at)));
        }
    }
}

// What is asked for is written as it is
void nacksScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    static const uint16_t offsets[] = { 0, 1, 2, 3, 8, 14, 15, 16, 17, 18, 32, 33, 34, 35, 1000, 33000 };
    static const uint16_t starts[] = { 0, 100, 65535, 65520, 65519, 32768 };
    const auto start = starts[ctx.choose(6, "start")];
    const auto low = ctx.choose(256, "low");
    const auto twist = ctx.choose(4, "twist"); // in order, one doubled, all doubled, in reverse
    for (int high = 0; high < 256; high += 1) {
        std::vector<uint16_t> list;
        for (size_t i = 0; i < 16; i += 1) {
            if ((low | high << 8) >> i & 1) {
                list.push_back(static_cast<uint16_t>(start + offsets[i]));
                if (twist == 2 || (twist == 1 && list.size() == 2)) {
                    list.push_back(list.back());
                }
            }
        }
        if (twist == 3) {
            std::reverse(list.begin(), list.end());
        }
        std::unique_ptr<uint16_t[]> seqs(new uint16_t[list.size()]), masks(new uint16_t[list.size()]);
        const auto n = srtc::compressNackList(list, seqs.get(), masks.get());
        ctx.check(n <= list.size(), "M14", "nack-count", "%zu items for %zu numbers", n, list.size());
        std::set<uint16_t> want(list.begin(), list.end()), got;
        for (size_t i = 0; i < n; i += 1) {
            got.insert(seqs[i]);
            for (int b = 0; b < 16; b += 1) {
                if (masks[i] >> b & 1) {
                    got.insert(static_cast<uint16_t>(seqs[i] + b + 1));
                }
            }
        }
        ctx.check(got == want, "M14", "nack-list", "%zu numbers are asked for, %zu are written", want.size(), got.size());
        ctx.step();
        ctx.outcome(mc::mix(n, got.size()));
    }
    ctx.state(static_cast<uint64_t>(low));
}

// Anything may come from the other side
void wireScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    sim::Config config;
    config.links = RefPeer::links();
    sim::Guard guard(ctx, config);
    const auto pub = ctx.choose(2, "direction") == 0;
    Solo s(ctx, pub ? srtc::Direction::Publish : srtc::Direction::Subscribe, true);
    PubSetup u;
    u.bwe = true;
    if (pub) {
        publisher(s, u);
    } else {
        const RefSession c(true);
        s.subscribe(c.po, c.pm, c.so, c.sm);
    }
    ctx.check(s.connect(), "M14", "connect", "not connected");
    const auto video = s.track(srtc::MediaType::Video);
    Wire w(s, u, "M14");
    uint64_t seq = 100;
    const auto media = [&] {
        if (pub) {
            const auto n = w.sent[video->getSSRC()].size();
            publish(s, video, 2500, 1);
            s.ref.sleep(40000);
            w.look();
            ctx.check(w.sent[video->getSSRC()].size() == n + 3, "M14", "no-media", "a frame of 3 packets makes %zu packets", w.sent[video->getSSRC()].size() - n);
        } else {
            const auto n = s.peer->frames.size();
            const Bytes p = { 0x10, 0x10, 2, 0, 0x9d, 1, 0x2a, 0x40, 1, 0xb4, 0 };
            s.ref.sendRtp(makeRtp(static_cast<uint8_t>(video->getPayloadId()), static_cast<uint16_t>(seq++), static_cast<uint32_t>(env::nowUs() * 9 / 100), video->getSSRC(), true, p));
            s.ref.sleep(300000);
            ctx.check(s.peer->frames.size() == n + 1, "M14", "no-media", "a frame is not delivered");
        }
    };
    media();
    // Well-formed ones
    std::vector<Bytes> kinds;
    const auto ssrc = video->getSSRC();
    Bytes sr;
    for (const auto v : { 0x83aa7e80u, 0x40000000u, 90000u, 5u, 500u }) {
        put32(sr, v);
    }
    kinds.push_back(makeRtcp(0, 200, ssrc, sr));
    Bytes both = reportBlock(ssrc, 0x12345678, 0x100);
    put(both, reportBlock(4242, 0, 0));
    kinds.push_back(makeRtcp(2, 201, 77, both));
    const auto first = pub ? w.sent[ssrc].front().seq : static_cast<uint16_t>(100);
    kinds.push_back(nack(ssrc, { { first, 3 }, { static_cast<uint16_t>(first - 4), 0xffff } }));
    {
        // Feedback: base 1, 9 packets, reference time, count; a run, a vector of one-bit, a vector of two-bit; deltas
        Bytes b;
        put32(b, ssrc);
        put16(b, 1);
        put16(b, 22);
        put32(b, 0x00000a01);
        put16(b, 0x2003); // 3 received
        put16(b, 0xaaaa); // 14 one-bit
        put16(b, 0xd5a0); // 7 two-bit
        for (int i = 0; i < 14; i += 1) {
            b.push_back(static_cast<uint8_t>(4 * i));
        }
        kinds.push_back(makeRtcp(15, 205, 77, b));
    }
    {
        Bytes b;
        put32(b, ssrc);
        kinds.push_back(makeRtcp(1, 206, 77, b));
        put32(b, ssrc);
        put32(b, 0x01000000);
        kinds.push_back(makeRtcp(4, 206, 77, b));
    }
    {
        Bytes b = { 4, 0, 0, 2 };
        put32(b, 0x83aa7e80);
        put32(b, 0x40000000);
        put(b, { 5, 0, 0, 6 });
        for (const auto v : { ssrc, 0x12345678u, 0x100u, 4242u, 1u, 2u }) {
            put32(b, v);
        }
        put(b, { 7, 0, 0, 1, 1, 2, 3, 4 });
        kinds.push_back(makeRtcp(0, 207, 77, b));
    }
    kinds.push_back(makeRtcp(1, 203, 77, {}));
    kinds.push_back(makeRtcp(1, 202, 77, { 1, 3, 'a', 'b', 'c', 0, 0, 0 }));
    const auto which = static_cast<size_t>(ctx.choose(static_cast<int>(kinds.size()), "packet"));
    const auto& good = kinds[which];
    const auto change = ctx.choose(7, "change");
    std::vector<Bytes> list;
    const auto relength = [](Bytes m) {
        m.resize((m.size() + 3) / 4 * 4);
        const auto n = m.size() / 4 - 1;
        m[2] = static_cast<uint8_t>(n >> 8);
        m[3] = static_cast<uint8_t>(n);
        return m;
    };
    switch (change) {
    case 0: // Cut off, with the length right and wrong
        for (size_t n = 8; n <= good.size(); n += 1) {
            const Bytes m(good.begin(), good.begin() + static_cast<long>(n));
            list.push_back(m);
            if (n % 4 == 0) {
                list.push_back(relength(m));
            }
        }
        break;
    case 1: // Any count, kind, length
        for (int v = 0; v < 256; v += 1) {
            for (const size_t at : { 0, 1, 2, 3 }) {
                auto m = good;
                m[at] = static_cast<uint8_t>(v);
                list.push_back(m);
            }
        }
        break;
    case 2: // Any byte
        for (size_t at = 8; at < good.size(); at += 1) {
            for (const auto v : { 0, 1, 0x7f, 0x80, 0xff }) {
                auto m = good;
                m[at] = static_cast<uint8_t>(v);
                list.push_back(m);
            }
        }
        break;
    case 3: // Any two bytes next to each other
        for (size_t at = 8; at + 1 < good.size(); at += 1) {
            for (const auto v : { 0x0000, 0xffff, 0x8000, 0x7fff, 0x3fff, 0x0001, 0xbfff }) {
                auto m = good;
                m[at] = static_cast<uint8_t>(v >> 8);
                m[at + 1] = static_cast<uint8_t>(v);
                list.push_back(m);
            }
        }
        break;
    case 4: // Padded, rightly and wrongly
        for (int v = 0; v < 256; v += 1) {
            auto m = good;
            put(m, { 0, 0, 0, static_cast<uint8_t>(v) });
            m = relength(m);
            m[0] |= 0x20;
            list.push_back(m);
        }
        break;
    case 5: // Longer
        for (size_t n = 1; n <= 300; n = n < 40 ? n + 1 : n + 37) {
            auto m = good;
            put(m, mcu::pattern(9, n, n * 4));
            list.push_back(relength(m));
        }
        break;
    case 6: // Many at once
        for (const auto& k : kinds) {
            auto m = good;
            put(m, k);
            list.push_back(m);
            put(m, { 0x80, 201, 0, 0 }); // of no length at all
            put(m, good);
            list.push_back(m);
        }
        break;
    }
    for (size_t i = 0; i < list.size(); i += 1) {
        // Does it ask for a key frame?
        auto asks = 0;
        auto exact = false;
        std::vector<Rtcp> parsed;
        if (parseRtcp(list[i], parsed)) {
            exact = true;
            for (const auto& r : parsed) {
                if (r.pt == 206 && (r.rc == 1 || r.rc == 4)) {
                    asks += 1;
                }
            }
        }
        const auto before = s.peer->keyFrameRequests;
        s.ref.sendRtcp(list[i]);
        s.ref.sleep(11000);
        const auto got = s.peer->keyFrameRequests - before;
        // (The reader of the parsed ones needs no more than the header of those)
        if (exact && pub) {
            ctx.check(got == asks, "M14", "key-frame-requests", "%d requests for a key frame, %d are passed on", asks, got);
        }
        ctx.step();
    }
    ctx.check(s.peer->state() == State::Connected, "M14", "disconnected", "the connection is %s", name(s.peer->state()));
    media();
    ctx.check(s.ref.failed == false, "M14", "failed", "the connection failed");
    ctx.state(mc::mix(which, static_cast<uint64_t>(change)));
    ctx.outcome(mc::mix(list.size(), static_cast<uint64_t>(s.peer->keyFrameRequests)));
}

} // namespace

namespace mc
{

void registerScenarios(bool)
{
    env::quiet();
    SSL_library_init();
    Identity::get();
    add("resend", { "M09" }, 0, 0, resendScenario);
    add("overflow", { "M09" }, 0, 0, overflowScenario, false, 120);
    add("compounds", { "M14" }, 0, 0, compoundsScenario);
    add("bytes", { "M14" }, 0, 0, bytesScenario);
    add("nacks", { "M14" }, 0, 0, nacksScenario);
    add("wire", { "M14" }, 0, 0, wireScenario);
    add("sent", { "M16" }, 0, 0, sentScenario);
    add("echo", { "M16" }, 0, 0, echoScenario);
    add("received", { "M16" }, 0, 0, receivedScenario);
    add("quiet", { "M16" }, 0, 0, quietScenario);
    add("asked", { "M16" }, 0, 0, askedScenario);
}

} // namespace mc
