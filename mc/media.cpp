// Whole streams through a connection, with the harness as the other side: what a subscriber makes of packets that
// are lost, late, repeated or foreign, and what a publisher puts on the wire
#include "refpeer.h"

#include <cmath>
#include <optional>

using namespace peers;

namespace
{

constexpr int kTwccId = 14;
constexpr int64_t kFrameUs = 20000;
constexpr int64_t kLengthUs = 100000;
constexpr int64_t kNackUs = 30000;
constexpr int64_t kLatencyUs = 10000;

Bytes rtpWithTwcc(uint8_t pt, uint16_t seq, uint32_t ts, uint32_t ssrc, bool marker, uint16_t twcc, const Bytes& payload, uint8_t padding = 0)
{
    Bytes b = { static_cast<uint8_t>(0x90 | (padding ? 0x20 : 0)), static_cast<uint8_t>(pt | (marker ? 0x80 : 0)) };
    put16(b, seq);
    put32(b, ts);
    put32(b, ssrc);
    put16(b, 0xbede);
    put16(b, 1);
    b.push_back(kTwccId << 4 | 1);
    put16(b, twcc);
    b.push_back(0);
    put(b, payload);
    if (padding) {
        b.resize(b.size() + padding - 1u);
        b.push_back(padding);
    }
    return b;
}

// ----- Transport-wide feedback

struct Arrival {
    uint16_t number;
    int64_t units; // of 250 us
};

// False if it is malformed
bool decodeFeedback(const Bytes& b, std::vector<Arrival>& arrived, std::vector<uint16_t>& missing)
{
    if (b.size() < 8) {
        return false;
    }
    const auto base = be16(b, 0);
    const size_t count = be16(b, 2);
    int64_t time = static_cast<int64_t>(be32(b, 4) >> 8) * 256;
    std::vector<unsigned> symbols;
    size_t at = 8;
    while (symbols.size() < count) {
        if (at + 2 > b.size()) {
            return false;
        }
        const unsigned chunk = be16(b, at);
        at += 2;
        if ((chunk & 0x8000) == 0) {
            symbols.insert(symbols.end(), chunk & 0x1fff, chunk >> 13 & 3);
            if ((chunk & 0x1fff) == 0) {
                return false;
            }
        } else if ((chunk & 0x4000) == 0) {
            for (int i = 13; i >= 0; i -= 1) {
                symbols.push_back(chunk >> i & 1);
            }
        } else {
            for (int i = 12; i >= 0; i -= 2) {
                symbols.push_back(chunk >> i & 3);
            }
        }
    }
    for (size_t i = 0; i < count; i += 1) {
        const auto number = static_cast<uint16_t>(base + i);
        if (symbols[i] == 0) {
            missing.push_back(number);
            continue;
        }
        const size_t n = symbols[i];
        if (n == 3 || at + n > b.size()) {
            return false;
        }
        time += n == 1 ? b[at] : static_cast<int16_t>(be16(b, at));
        at += n;
        arrived.push_back({ number, time });
    }
    return b.size() - at < 4;
}

// ----- Subscribing

enum Fate { Normal, Repaired, Lost, Late15, Late60, Twice, TwiceLate, Replayed, Junk, kFates };

const char* const kFateNames[] = { "normal", "lost and repaired", "lost", "15 ms late", "60 ms late", "sent twice", "again 50 ms later", "datagram replayed", "after junk" };

struct Pkt {
    int stream = 0; // 0 video, 1 audio
    int frame = 0;
    uint64_t seq = 0;
    uint32_t ts = 0;
    bool marker = false;
    Bytes payload;
    int fate = Normal;
    int64_t dueUs = 0;
    std::optional<int64_t> arrivedUs; // first
    bool repairSent = false;
    std::vector<int64_t> asked;
};

struct Sent {
    int stream;
    int index; // of the frame
    Bytes data;
    std::vector<size_t> packets;
    int64_t deadlineUs = 0;
    std::optional<int64_t> deliveredUs;
};

void subscribeScenario(mc::Ctx& ctx, int frames, bool structure)
{
    env::reset(ctx.seed());
    sim::Config config;
    config.links = RefPeer::links();
    sim::Guard guard(ctx, config);
    const bool early = structure && ctx.flip("numbers wrap");
    const bool rtx = !structure || ctx.choose(2, "retransmissions") == 0;
    Solo s(ctx, srtc::Direction::Subscribe, true);
    RefSession c(rtx);
    c.po.enable_bwe = true;
    c.so.jitter_buffer_length_millis = kLengthUs / 1000;
    c.so.jitter_buffer_nack_delay_millis = kNackUs / 1000;
    s.subscribe(c.po, c.pm, c.so, c.sm);
    ctx.check(s.connect(), ctx.property(), "connect", "not connected");
    s.ref.sleep(30000);
    const std::shared_ptr<srtc::Track> tracks[2] = { s.track(srtc::MediaType::Video), s.track(srtc::MediaType::Audio) };
    const bool nack[2] = { tracks[0]->hasNack(), tracks[1]->hasNack() };
    ctx.check(nack[0], "M03", "negotiated", "there are no requests for video");

    // The session
    std::vector<Pkt> packets;
    std::vector<Sent> sent;
    uint64_t next[2] = { early ? 65533u : 100u, early ? 65535u : 65530u };
    const uint32_t ts0[2] = { early ? 0xfffff000u : 1000u, 0xffffff00u };
    for (int i = 0; i < frames; i += 1) {
        for (int k = 0; k < 2; k += 1) {
            Sent f;
            f.stream = k;
            f.index = i;
            f.data = k == 0 ? frame(300 + static_cast<size_t>(i), i) : mcu::pattern(9, static_cast<uint64_t>(i), 60);
            const int n = k == 0 ? 2 : 1;
            for (int j = 0; j < n; j += 1) {
                Pkt p;
                p.stream = k;
                p.frame = static_cast<int>(sent.size());
                p.seq = next[k];
                next[k] += 1;
                p.ts = ts0[k] + static_cast<uint32_t>(i) * (k == 0 ? 1800 : 960);
                p.marker = k == 0 && j == n - 1;
                if (k == 0) {
                    const auto half = f.data.begin() + 150;
                    p.payload = { static_cast<uint8_t>(j == 0 ? 0x10 : 0) };
                    put(p.payload, j == 0 ? Bytes(f.data.begin(), half) : Bytes(half, f.data.end()));
                } else {
                    p.payload = f.data;
                }
                // The first and the last two frames tell where the streams begin and end
                if (i > 0 && i < frames - 2) {
                    p.fate = ctx.deviate(kFates, "fate");
                }
                p.dueUs = i * kFrameUs + j * 1000 + k * 3000;
                f.packets.push_back(packets.size());
                packets.push_back(std::move(p));
            }
            sent.push_back(std::move(f));
        }
    }

    // Sending
    const auto origin = env::nowUs();
    uint16_t twcc = early ? 65530 : 3;
    uint16_t rtxSeq[2] = { 65535, 7 };
    std::map<uint16_t, int64_t> arrivals; // of transport-wide numbers
    std::map<uint16_t, bool> numbers;
    const auto number = [&](bool arrives) {
        const auto n = twcc;
        twcc += 1;
        numbers[n] = arrives;
        if (arrives) {
            arrivals[n] = env::nowUs() + kLatencyUs;
        }
        return n;
    };
    const auto media = [&](const Pkt& p) {
        s.ref.sendRtp(rtpWithTwcc(tracks[p.stream]->getPayloadId(), static_cast<uint16_t>(p.seq), p.ts, tracks[p.stream]->getSSRC(), p.marker, number(true), p.payload),
                      static_cast<uint32_t>(p.seq >> 16));
    };
    const auto resend = [&](const Pkt& p) {
        if (!rtx) {
            media(p);
            return;
        }
        Bytes b;
        put16(b, static_cast<uint16_t>(p.seq));
        put(b, p.payload);
        auto& q = rtxSeq[p.stream];
        const auto seq = q;
        q += 1;
        s.ref.sendRtp(rtpWithTwcc(tracks[p.stream]->getRtxPayloadId(), seq, p.ts, tracks[p.stream]->getRtxSSRC(), p.marker, number(true), b),
                      p.stream == 0 && seq < 1000 ? 1 : 0);
    };
    const auto arrived = [](Pkt& p) {
        if (!p.arrivedUs) {
            p.arrivedUs = env::nowUs() + kLatencyUs;
        }
    };
    // What is not of this session, or does not mean anything
    const auto junk = [&](const Pkt& p, int kind) {
        const auto ssrc = tracks[p.stream]->getSSRC();
        const auto pt = tracks[p.stream]->getPayloadId();
        switch (kind % 5) {
        case 0: // another stream
            s.ref.sendRtp(rtpWithTwcc(pt, static_cast<uint16_t>(p.seq + 1), p.ts, ssrc + 77, p.marker, number(false), p.payload), 0);
            break;
        case 1: { // a forged packet
            auto b = rtpWithTwcc(pt, static_cast<uint16_t>(p.seq), p.ts, ssrc, p.marker, twcc, Bytes(40, 1));
            b.resize(b.size() + 10, 0x55);
            sim::send(s.ref.ep, s.ref.remote, b);
            break;
        }
        case 2: // a retransmission without its number
            if (rtx) {
                const auto seq = rtxSeq[p.stream]++;
                s.ref.sendRtp(rtpWithTwcc(tracks[p.stream]->getRtxPayloadId(), seq, p.ts, tracks[p.stream]->getRtxSSRC(), p.marker, number(true), { 1 }),
                              p.stream == 0 && seq < 1000 ? 1 : 0);
            }
            break;
        case 3: // padding alone, on the retransmission stream
            if (rtx) {
                const auto seq = rtxSeq[p.stream]++;
                s.ref.sendRtp(rtpWithTwcc(tracks[p.stream]->getRtxPayloadId(), seq, p.ts, tracks[p.stream]->getRtxSSRC(), false, number(true), {}, 200),
                              p.stream == 0 && seq < 1000 ? 1 : 0);
            }
            break;
        default: // not a protected packet at all
            sim::send(s.ref.ep, s.ref.remote, { 0x80, pt, 1 });
            break;
        }
    };

    struct Event {
        int64_t atUs;
        size_t packet;
        int what; // 0 the packet's own time, 1 later
    };
    std::vector<Event> events;
    for (size_t i = 0; i < packets.size(); i += 1) {
        const auto& p = packets[i];
        events.push_back({ p.dueUs, i, 0 });
        if (p.fate == Late15 || p.fate == Late60 || p.fate == TwiceLate || p.fate == Replayed) {
            events.push_back({ p.dueUs + (p.fate == Late15 ? 15000 : p.fate == Late60 ? 60000 : 50000), i, 1 });
        }
    }
    std::stable_sort(events.begin(), events.end(), [](const Event& a, const Event& b) { return a.atUs < b.atUs; });

    size_t rtcpSeen = 0, feedbacks = 0, framesSeen = 0;
    std::map<uint16_t, int64_t> reported;
    std::optional<int64_t> offset;
    const auto label = [&](const Pkt& p) {
        return std::string(p.stream ? "audio" : "video") + " packet " + std::to_string(p.seq) + " (" + kFateNames[p.fate] + ")";
    };
    const auto look = [&] {
        for (; rtcpSeen < s.ref.rtcp.size(); rtcpSeen += 1) {
            const auto& r = s.ref.rtcp[rtcpSeen];
            if (r.pt != 205) {
                continue;
            }
            ctx.step();
            if (r.rc == 1) {
                ctx.check(r.body.size() >= 8 && r.body.size() % 4 == 0, "M03", "request-format", "a request has %zu bytes", r.body.size());
                const auto ssrc = be32(r.body, 0);
                ctx.check(ssrc == tracks[0]->getSSRC() || ssrc == tracks[1]->getSSRC(), "M03", "request-stream", "packets of stream %u are asked for", ssrc);
                const int stream = ssrc == tracks[0]->getSSRC() ? 0 : 1;
                for (size_t at = 4; at + 4 <= r.body.size(); at += 4) {
                    const unsigned pid = be16(r.body, at), blp = be16(r.body, at + 2);
                    for (unsigned k = 0; k <= 16; k += 1) {
                        if (k > 0 && !(blp >> (k - 1) & 1)) {
                            continue;
                        }
                        Pkt* found = nullptr;
                        for (auto& p : packets) {
                            if (p.stream == stream && static_cast<uint16_t>(p.seq) == static_cast<uint16_t>(pid + k)) {
                                found = &p;
                            }
                        }
                        ctx.check(found != nullptr, "M03", "request-unknown", "packet %u is asked for, which there is not", static_cast<uint16_t>(pid + k));
                        if (found == nullptr) {
                            continue;
                        }
                        ctx.log("%8.1f ms: asked for %s", static_cast<double>(env::nowUs()) / 1000.0, label(*found).c_str());
                        const auto at2 = r.atUs - kLatencyUs;
                        ctx.check(!found->arrivedUs || *found->arrivedUs >= at2, "M03", "request-received", "%s is asked for, which arrived %lld us before", label(*found).c_str(),
                                  static_cast<long long>(at2 - found->arrivedUs.value_or(0)));
                        found->asked.push_back(at2);
                        if (found->fate == Repaired && !found->repairSent) {
                            found->repairSent = true;
                            resend(*found);
                            arrived(*found);
                        }
                    }
                }
            } else if (r.rc == 15) {
                feedbacks += 1;
                std::vector<Arrival> got;
                std::vector<uint16_t> missing;
                ctx.check(r.body.size() >= 4 && decodeFeedback(Bytes(r.body.begin() + 4, r.body.end()), got, missing), "M11", "format", "malformed feedback of %zu bytes", r.body.size());
                const auto at = r.atUs - kLatencyUs;
                for (const auto& a : got) {
                    const auto i = arrivals.find(a.number);
                    ctx.check(i != arrivals.end() && i->second <= at, "M11", "not-arrived", "packet %u is reported as received", a.number);
                    if (i == arrivals.end()) {
                        continue;
                    }
                    const auto off = a.units * 250 - i->second;
                    if (!offset) {
                        offset = off;
                    }
                    ctx.check(std::abs(off - *offset) <= 1000, "M11", "time", "the arrival of packet %u is reported %lld us off", a.number, static_cast<long long>(off - *offset));
                    reported[a.number] = at;
                }
                for (const auto n : missing) {
                    const auto i = arrivals.find(n);
                    const auto seenBefore = reported.find(n);
                    ctx.check(i == arrivals.end() || i->second + 1000 >= at || seenBefore != reported.end(), "M11", "arrived-missing", "packet %u arrived %lld us before the report and is reported as missing", n,
                              static_cast<long long>(at - (i == arrivals.end() ? 0 : i->second)));
                    ctx.check(numbers.count(n) != 0, "M11", "unsent", "packet %u is reported as missing, and was not sent", n);
                }
            }
        }
        for (; framesSeen < s.peer->frames.size(); framesSeen += 1) {
            const auto& f = s.peer->frames[framesSeen];
            ctx.step();
            const int stream = f.track == tracks[0] ? 0 : 1;
            ctx.check(f.track == tracks[stream], "M01", "track", "a frame of an unknown track");
            Sent* found = nullptr;
            int last = -1;
            for (auto& g : sent) {
                if (g.stream == stream && g.data == f.data) {
                    found = &g;
                }
                if (g.stream == stream && g.deliveredUs) {
                    last = std::max(last, g.index);
                }
            }
            ctx.check(found != nullptr, "M01", "content", "%s: a frame of %zu bytes that was not sent", stream ? "audio" : "video", f.data.size());
            if (found == nullptr) {
                continue;
            }
            ctx.check(!found->deliveredUs, "M01", "twice", "%s frame %d is delivered twice", stream ? "audio" : "video", found->index);
            ctx.check(last < found->index, "M01", "order", "%s frame %d is delivered after frame %d", stream ? "audio" : "video", found->index, last);
            const auto& p = packets[found->packets[0]];
            ctx.check(static_cast<uint16_t>(f.seqExt) == static_cast<uint16_t>(p.seq) && static_cast<uint32_t>(f.rtpExt) == p.ts, "M01", "stamp", "%s frame %d has number %llu and time stamp %llu",
                      stream ? "audio" : "video", found->index, static_cast<unsigned long long>(f.seqExt), static_cast<unsigned long long>(f.rtpExt));
            ctx.check(stream == 1 || f.marker, "M01", "marker", "video frame %d has no marker", found->index);
            for (const auto k : found->packets) {
                ctx.check(packets[k].arrivedUs && *packets[k].arrivedUs <= f.atUs, "M01", "incomplete", "%s frame %d is delivered without %s", stream ? "audio" : "video", found->index, label(packets[k]).c_str());
            }
            found->deliveredUs = f.atUs;
        }
    };

    size_t junks = 0;
    for (const auto& e : events) {
        const auto until = origin + e.atUs;
        // The requests are answered as they come
        while (env::nowUs() < until) {
            const auto n = s.ref.rtcp.size();
            s.ref.waitFor([&] { return s.ref.rtcp.size() != n; }, until - env::nowUs());
            look();
        }
        auto& p = packets[e.packet];
        ctx.log("%8.1f ms: %s%s", static_cast<double>(env::nowUs()) / 1000.0, label(p).c_str(), e.what ? " again" : "");
        if (e.what == 0) {
            switch (p.fate) {
            case Repaired:
            case Lost:
                (void)number(false);
                break;
            case Late15:
            case Late60:
                break;
            case Twice:
                media(p);
                arrived(p);
                if (rtx) {
                    resend(p);
                }
                break;
            case Replayed: {
                media(p);
                arrived(p);
                break;
            }
            case Junk:
                for (int k = 0; k < 5; k += 1) {
                    junk(p, static_cast<int>(junks++));
                }
                media(p);
                arrived(p);
                break;
            default:
                media(p);
                arrived(p);
                break;
            }
        } else if (p.fate == TwiceLate) {
            if (rtx) {
                resend(p);
            }
        } else if (p.fate == Replayed) {
            // Exactly as it was: it is protected with the same index
            auto b = rtpWithTwcc(tracks[p.stream]->getPayloadId(), static_cast<uint16_t>(p.seq), p.ts, tracks[p.stream]->getSSRC(), p.marker, 0, p.payload);
            s.ref.sendRtp(b, static_cast<uint32_t>(p.seq >> 16));
        } else {
            media(p);
            arrived(p);
        }
    }
    const auto finish = env::nowUs() + 500000;
    while (env::nowUs() < finish) {
        const auto n = s.ref.rtcp.size();
        s.ref.waitFor([&] { return s.ref.rtcp.size() != n; }, finish - env::nowUs());
        look();
    }

    // What was delivered, and when
    uint64_t h = 0;
    for (auto& f : sent) {
        int64_t base = 0;
        for (const auto& p : packets) {
            if (p.stream == f.stream && p.frame == (f.stream == 0 ? 0 : 1)) {
                base = p.arrivedUs.value_or(0);
                break;
            }
        }
        f.deadlineUs = base + f.index * kFrameUs + kLengthUs;
        bool inTime = true;
        for (const auto k : f.packets) {
            inTime = inTime && packets[k].arrivedUs && *packets[k].arrivedUs < f.deadlineUs - 2000;
        }
        if (inTime) {
            ctx.check(f.deliveredUs.has_value(), "M02", "missing", "%s frame %d is not delivered, all its packets arrived in time", f.stream ? "audio" : "video", f.index);
            ctx.check(!f.deliveredUs || *f.deliveredUs <= f.deadlineUs + 3000, "M02", "late", "%s frame %d is delivered %lld us after its time", f.stream ? "audio" : "video", f.index,
                      static_cast<long long>(f.deliveredUs.value_or(0) - f.deadlineUs));
        }
        h = mc::mix(h, f.deliveredUs ? static_cast<uint64_t>(*f.deliveredUs - origin) : 1);
    }
    // What was asked for
    for (size_t i = 0; i < packets.size(); i += 1) {
        const auto& p = packets[i];
        std::optional<int64_t> gap;
        for (const auto& q : packets) {
            if (q.stream == p.stream && q.seq > p.seq && q.arrivedUs && (!gap || *q.arrivedUs < *gap)) {
                gap = q.arrivedUs;
            }
        }
        if (!gap || (p.arrivedUs && *p.arrivedUs < *gap) || !nack[p.stream]) {
            ctx.check(p.asked.empty(), "M03", "asked", "%s is asked for", label(p).c_str());
            continue;
        }
        const auto at = *gap + kNackUs;
        if (p.arrivedUs && std::abs(*p.arrivedUs - at) <= 5000) {
            continue;
        }
        const bool missing = !p.arrivedUs || *p.arrivedUs > at;
        ctx.check(p.asked.size() == (missing ? 1u : 0u), "M03", "asked", "%s is asked for %zu times", label(p).c_str(), p.asked.size());
        if (p.asked.size() == 1) {
            ctx.check(p.asked[0] >= at - 1000 && p.asked[0] <= at + 4000, "M03", "asked-when", "%s is asked for %lld us after the one that follows it", label(p).c_str(),
                      static_cast<long long>(p.asked[0] - *gap));
        }
        h = mc::mix(h, p.asked.size());
    }
    // What was reported
    ctx.check(feedbacks >= 2, "M11", "no-feedback", "there are %zu reports", feedbacks);
    for (const auto& a : arrivals) {
        ctx.check(reported.count(a.first) != 0, "M11", "arrived-not-covered", "packet %u arrived and is not reported", a.first);
    }
    ctx.check(s.peer->state() == State::Connected, ctx.property(), "state", "no longer connected");
    ctx.state(h);
    ctx.outcome(mc::mix(h, s.peer->frames.size()));
}

// ----- Publishing

std::map<int, Bytes> elements(const Rtp& r)
{
    std::map<int, Bytes> out;
    const bool one = r.extProfile == 0xbede;
    for (size_t at = 0; at < r.ext.size();) {
        if (r.ext[at] == 0) {
            at += 1;
            continue;
        }
        const int id = one ? r.ext[at] >> 4 : r.ext[at];
        const size_t n = one ? (r.ext[at] & 15u) + 1 : at + 1 < r.ext.size() ? r.ext[at + 1] : 0;
        at += one ? 1 : 2;
        if (at + n > r.ext.size()) {
            break;
        }
        out[id] = Bytes(r.ext.begin() + static_cast<long>(at), r.ext.begin() + static_cast<long>(at + n));
        at += n;
    }
    return out;
}

Bytes layersElement(unsigned which, const std::vector<srtc::SimulcastLayer>& layers)
{
    Bytes b = { static_cast<uint8_t>(which << 6 | (layers.size() - 1) << 4 | 1), 0 };
    for (const auto& l : layers) {
        for (auto v = l.kilobits_per_second;; v >>= 7) {
            b.push_back(static_cast<uint8_t>((v & 0x7f) | (v > 0x7f ? 0x80 : 0)));
            if (v <= 0x7f) {
                break;
            }
        }
    }
    for (const auto& l : layers) {
        put16(b, static_cast<uint32_t>(l.width - 1));
        put16(b, static_cast<uint32_t>(l.height - 1));
        b.push_back(static_cast<uint8_t>(l.frames_per_second));
    }
    return b;
}

void publishScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    sim::Config config;
    config.links = RefPeer::links();
    sim::Guard guard(ctx, config);
    const auto kind = ctx.choose(ctx.thorough() ? 4 : 3, "session"); // plain, layers, no retransmissions, no feedback
    const bool simulcast = kind == 1, rtx = kind != 2, bwe = kind != 3;
    Solo s(ctx, srtc::Direction::Publish, true);
    srtc::PubOfferConfig o;
    o.cname = "pub";
    o.enable_rtx = rtx;
    o.enable_bwe = bwe;
    o.enable_abs_capture_time = true;
    srtc::PubMediaConfig m;
    m.media_list.push_back({ "v", srtc::MediaType::Video, { { srtc::Codec::VP8, 0 } }, {} });
    if (simulcast) {
        m.media_list.back().layer_list = { { "l", 320, 180, 15, 300 }, { "h", 640, 360, 30, 900 } };
    }
    m.media_list.push_back({ "a", srtc::MediaType::Audio, { { srtc::Codec::Opus } }, {} });
    s.offer(s.peer->pc->createPublishOffer(o, m));
    AnswerOptions a;
    a.rtx = rtx;
    s.answer(s.peer->offerText, a);
    ctx.check(s.connect(), ctx.property(), "connect", "not connected");
    s.ref.sleep(30000);

    std::vector<std::shared_ptr<srtc::Track>> tracks; // video (layers), then audio
    for (const auto& t : s.peer->answer->getTrackList()) {
        if (t->getMediaType() == srtc::MediaType::Video) {
            tracks.push_back(t);
        }
    }
    tracks.push_back(s.track(srtc::MediaType::Audio));
    ctx.check(tracks.size() == (simulcast ? 3u : 2u), ctx.property(), "tracks", "there are %zu tracks", tracks.size());
    const auto audio = tracks.size() - 1;

    struct Out {
        size_t track;
        Bytes data;
        int64_t atUs;
        uint64_t capture;
        std::vector<srtc::SimulcastLayer> layers;
        size_t packets = 0, bytes = 0;
        int64_t firstUs = 0, lastUs = 0;
        uint32_t ts = 0;
    };
    std::vector<std::vector<Out>> out(tracks.size());
    auto layers = m.media_list[0].layer_list;
    int number = 0;
    const auto frameOf = [&](size_t track, size_t size) {
        Out f;
        f.track = track;
        f.data = frame(size, number++);
        f.atUs = env::nowUs();
        f.capture = number % 2 ? 0xe000000000000000ull + static_cast<uint64_t>(number) : 0;
        f.layers = layers;
        srtc::ByteBuffer b(f.data.data(), f.data.size());
        const auto e = track == audio ? s.peer->pc->publishAudioFrame(tracks[track], f.atUs, std::move(b), f.capture)
                                      : s.peer->pc->publishVideoFrame(tracks[track], f.atUs, std::move(b), f.capture);
        ctx.check(e.isOk(), ctx.property(), "publish", "a frame is refused: %s", e.message.c_str());
        ctx.log("%8.1f ms: frame of %zu bytes, track %zu", static_cast<double>(f.atUs) / 1000.0, size, track);
        out[track].push_back(std::move(f));
    };

    // What is seen
    size_t seen = 0;
    std::map<uint32_t, std::vector<Rtp>> wire;
    std::vector<size_t> at(tracks.size()), done(tracks.size());
    std::vector<Bytes> part(tracks.size());
    std::optional<uint16_t> lastTwcc;
    std::map<uint32_t, uint16_t> lastSeq;
    size_t feedbackFrom = 0;
    std::vector<std::pair<uint16_t, int64_t>> twccArrivals;
    std::vector<std::pair<uint32_t, uint16_t>> asked, answered;
    const auto look = [&] {
        for (; seen < s.ref.rtp.size(); seen += 1) {
            const auto& r = s.ref.rtp[seen];
            ctx.step();
            size_t t = 0;
            bool again = r.again;
            for (; t < tracks.size() && tracks[t]->getSSRC() != r.ssrc; t += 1) {
                if (rtx && tracks[t]->getRtxSSRC() == r.ssrc) {
                    again = true;
                    break;
                }
            }
            ctx.check(t < tracks.size(), ctx.property(), "stream", "a packet of stream %u", r.ssrc);
            const auto ext = elements(r);
            ctx.check(r.wire <= 1228, "M05", "size", "a datagram of %zu bytes", r.wire);
            // Every packet has the next transport-wide number (one sent again keeps its own)
            if (bwe && !again) {
                const auto i = ext.find(kTwccId);
                ctx.check(i != ext.end() && i->second.size() == 2, "M12", "number", "packet %u of stream %u has no transport-wide number", r.seq, r.ssrc);
                if (i != ext.end() && i->second.size() == 2) {
                    const auto n = be16(i->second, 0);
                    ctx.check(!lastTwcc || n == static_cast<uint16_t>(*lastTwcc + 1), "M12", "number", "the transport-wide number %u follows %u", n, lastTwcc.value_or(0));
                    lastTwcc = n;
                    twccArrivals.emplace_back(n, r.atUs);
                }
            }
            if (again) {
                const auto seq = r.again ? r.seq : be16(r.payload, 0);
                answered.emplace_back(tracks[t]->getSSRC(), seq);
                if (!r.again) {
                    if (const auto i = lastSeq.find(r.ssrc); i != lastSeq.end()) {
                        ctx.check(r.seq == static_cast<uint16_t>(i->second + 1), "M05", "rtx-sequence", "retransmission %u follows %u", r.seq, i->second);
                    }
                    lastSeq[r.ssrc] = r.seq;
                    const Rtp* original = nullptr;
                    for (const auto& w : wire[tracks[t]->getSSRC()]) {
                        original = w.seq == seq ? &w : original;
                    }
                    ctx.check(original && r.payload.size() >= 2 && Bytes(r.payload.begin() + 2, r.payload.end()) == original->payload && r.ts == original->ts && r.marker == original->marker, "M05",
                              "rtx-content", "packet %u of track %zu is sent again with another content", seq, t);
                    if (original) {
                        // The elements are those of the packet, its number and the layer aside
                        const auto before = elements(*original);
                        for (const auto& i : before) {
                            const auto k = ext.find(i.first);
                            ctx.check(i.first == kTwccId || (k != ext.end() && k->second == i.second), "M13", "rtx-elements", "the element %d is lost or changed when packet %u is sent again", i.first, seq);
                        }
                        for (const auto& i : ext) {
                            const bool layer = t != audio && simulcast && (i.first == 1 || i.first == 3);
                            ctx.check(before.count(i.first) || layer, "M13", "rtx-elements", "packet %u is sent again with the element %d, which it did not have", seq, i.first);
                        }
                    }
                }
                continue;
            }
            ctx.check(r.pt == tracks[t]->getPayloadId(), "M05", "payload-type", "a packet of stream %u has payload type %u", r.ssrc, r.pt);
            if (const auto i = lastSeq.find(r.ssrc); i != lastSeq.end()) {
                ctx.check(r.seq == static_cast<uint16_t>(i->second + 1), "M05", "sequence", "track %zu: packet %u follows %u", t, r.seq, i->second);
            }
            lastSeq[r.ssrc] = r.seq;
            wire[r.ssrc].push_back(r);
            ctx.check(at[t] < out[t].size(), "M05", "unknown", "track %zu: a packet after the last frame", t);
            if (at[t] >= out[t].size()) {
                continue;
            }
            auto& f = out[t][at[t]];
            const bool first = f.packets == 0;
            if (first) {
                f.firstUs = r.atUs;
                f.ts = r.ts;
                part[t].clear();
            }
            f.packets += 1;
            f.lastUs = r.atUs;
            ctx.check(r.ts == f.ts, "M05", "timestamp", "track %zu: the packets of a frame have different timestamps", t);
            Bytes payload = r.payload;
            if (t != audio) {
                ctx.check(!payload.empty() && payload[0] == (first ? 0x10 : 0), "M05", "octet", "track %zu: packet %zu of a frame starts with %02x", t, f.packets, payload.empty() ? 0 : payload[0]);
                payload.erase(payload.begin(), payload.begin() + (payload.empty() ? 0 : 1));
            }
            put(part[t], payload);
            const bool whole = part[t].size() >= f.data.size();
            ctx.check(t == audio || r.marker == whole, "M05", "marker", "track %zu: packet %zu of a frame has marker %d, the frame is %s", t, f.packets, r.marker, whole ? "complete" : "not complete");
            ctx.check(!whole || part[t] == f.data, "M05", "content", "track %zu: a frame of %zu bytes is sent as %zu other bytes", t, f.data.size(), part[t].size());
            ctx.check(t == audio || whole || r.payload.size() > 900, "M05", "split", "track %zu: a frame is split at %zu bytes", t, r.payload.size());

            // Elements: the layers on key frames, the capture time on the first packet
            const bool layer = simulcast && t != audio;
            const auto is = [&](int id, const Bytes& value) {
                const auto i = ext.find(id);
                return i != ext.end() && i->second == value;
            };
            const auto name = [](const std::string& n) { return Bytes(n.begin(), n.end()); };
            ctx.check(layer ? is(1, name("v")) && is(2, name(m.media_list[0].layer_list[t].name)) && is(4, layersElement(static_cast<unsigned>(t), f.layers))
                            : ext.count(2) == 0 && ext.count(4) == 0,
                      "M13", "layer", "track %zu: packet %zu of a frame does not tell its layer, or all layers, right", t, f.packets);
            Bytes capture;
            put32(capture, static_cast<uint32_t>(f.capture >> 32));
            put32(capture, static_cast<uint32_t>(f.capture));
            ctx.check(first && f.capture ? is(12, capture) : ext.count(12) == 0, "M13", "capture", "track %zu: packet %zu of a frame has another capture time than the frame", t, f.packets);

            // Time
            ctx.check(r.atUs - kLatencyUs <= f.atUs + 56000, "M10", "late", "track %zu: a packet is sent %lld us after its frame was published", t, static_cast<long long>(r.atUs - kLatencyUs - f.atUs));
            if (whole) {
                if (at[t] > 0) {
                    const auto& before = out[t][at[t] - 1];
                    const auto rate = t == audio ? 48.0 : 90.0;
                    const auto want = static_cast<double>(f.atUs - before.atUs) / 1000.0 * rate;
                    ctx.check(std::fabs(static_cast<double>(f.ts - before.ts) - want) <= 2, "M05", "timestamp-step", "track %zu: the timestamp goes on by %u in %lld us", t, f.ts - before.ts,
                              static_cast<long long>(f.atUs - before.atUs));
                }
                at[t] += 1;
            }
            ctx.check(f.lastUs >= f.firstUs, "M10", "order", "the packets of a frame are out of order");
        }
        ctx.check(s.ref.undecodable == 0, ctx.property(), "undecodable", "%zu packets cannot be decoded", s.ref.undecodable);
    };

    const auto mediaSsrc = [&](size_t t) { return tracks[t]->getSSRC(); };
    const int steps = ctx.thorough() ? 4 : 3;
    for (int i = 0; i < steps; i += 1) {
        switch (ctx.choose(10, "next")) {
        case 0:
            frameOf(0, 120);
            break;
        case 1:
            frameOf(0, 9000);
            break;
        case 2:
            frameOf(audio, 80);
            break;
        case 3: // the other layer, or much more
            frameOf(simulcast ? 1 : 0, 30000);
            break;
        case 4: { // the last packets are asked for
            const auto& w = wire[mediaSsrc(0)];
            if (!w.empty()) {
                Bytes b;
                put32(b, mediaSsrc(0));
                put16(b, w.back().seq - 2u);
                put16(b, 3);
                for (unsigned k = 0; k < 3; k += 1) {
                    const auto seq = static_cast<uint16_t>(w.back().seq - 2u + k);
                    for (const auto& r : w) {
                        if (r.seq == seq) {
                            asked.emplace_back(mediaSsrc(0), seq);
                        }
                    }
                }
                s.ref.sendRtcp(makeRtcp(1, 205, 99, b));
            }
            break;
        }
        case 5: // feedback for everything so far
            if (bwe && twccArrivals.size() > feedbackFrom) {
                Bytes b;
                put32(b, mediaSsrc(0));
                put16(b, twccArrivals[feedbackFrom].first);
                put16(b, static_cast<uint32_t>(twccArrivals.size() - feedbackFrom));
                const auto ref = twccArrivals[feedbackFrom].second / 64000;
                put32(b, static_cast<uint32_t>(ref << 8));
                put16(b, static_cast<uint32_t>(0x4000 | (twccArrivals.size() - feedbackFrom))); // a run of large deltas
                auto time = ref * 256;
                for (size_t k = feedbackFrom; k < twccArrivals.size(); k += 1) {
                    const auto units = twccArrivals[k].second / 250;
                    put16(b, static_cast<uint32_t>(units - time));
                    time = units;
                }
                feedbackFrom = twccArrivals.size();
                s.ref.sendRtcp(makeRtcp(15, 205, 99, b));
            }
            break;
        case 6: { // a key frame is asked for
            Bytes b;
            put32(b, mediaSsrc(0));
            const auto before = s.peer->keyFrameRequests;
            s.ref.sendRtcp(makeRtcp(1, 206, 99, b));
            s.ref.sleep(12000);
            ctx.check(s.peer->keyFrameRequests == before + 1, ctx.property(), "key-frame", "%d requests for a key frame arrive", s.peer->keyFrameRequests - before);
            break;
        }
        case 7:
            s.ref.sleep(4000);
            break;
        case 8:
            s.ref.sleep(33000);
            break;
        default: // another rate for a layer
            if (simulcast) {
                layers[1].kilobits_per_second = layers[1].kilobits_per_second == 900 ? 20000 : 900;
                layers[1].frames_per_second = 10;
                const auto e = s.peer->pc->updateVideoSimulcastLayer(tracks[1], layers[1]);
                ctx.check(e.isOk(), "M13", "layer-update", "a layer cannot be updated: %s", e.message.c_str());
            } else {
                s.ref.sleep(11000);
            }
            break;
        }
        s.ref.sleep(1000);
        look();
    }
    s.ref.sleep(100000);
    look();
    uint64_t h = static_cast<uint64_t>(kind);
    for (size_t t = 0; t < tracks.size(); t += 1) {
        ctx.check(at[t] == out[t].size(), "M10", "unsent", "track %zu: %zu of %zu frames are sent", t, at[t], out[t].size());
        for (const auto& f : out[t]) {
            h = mc::mix(h, mc::mix(f.packets, static_cast<uint64_t>(f.lastUs - f.atUs)));
        }
    }
    for (const auto& q : asked) {
        ctx.check(std::count(answered.begin(), answered.end(), q) >= 1, "M05", "rtx-missing", "packet %u was asked for and is not sent again", q.second);
    }
    h = mc::mix(h, answered.size());
    ctx.check(s.peer->state() == State::Connected, ctx.property(), "state", "no longer connected");
    ctx.state(h);
    ctx.outcome(h);
}

} // namespace

namespace mc
{

void registerScenarios(bool thorough)
{
    env::quiet();
    SSL_library_init();
    Identity::get();
    const std::vector<std::string> sub = { "M01", "M02", "M03", "M11" };
    add("subscribe", sub, 1, 2, [](Ctx& c) { subscribeScenario(c, 10, true); });
    add("publish", { "M05", "M10", "M12", "M13" }, 0, 0, publishScenario);
    add("subscribe-few", sub, 2, 3, [thorough](Ctx& c) { subscribeScenario(c, thorough ? 6 : 5, false); });
}

} // namespace mc
