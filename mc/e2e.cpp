// Connections between two real endpoints: every loss, duplication and delay of up to a bounded number of datagrams
#include "peers.h"

#include "srtc/rtp_packet_source.h"
#include "srtc/srtp_connection.h"

#include <openssl/ssl.h>

#include <set>

using namespace peers;

namespace
{

const char* kinds[] = { "stun", "dtls", "rtp", "rtcp", "?" };

int kindOf(const sim::Bytes& d)
{
    if (d.empty()) {
        return 4;
    }
    if (d[0] < 2) {
        return 0;
    }
    if (d[0] >= 20 && d[0] <= 63) {
        return 1;
    }
    if (d[0] >= 128 && d[0] <= 191 && d.size() > 1) {
        const auto pt = d[1] & 0x7f;
        return pt >= 64 && pt <= 95 ? 3 : 2;
    }
    return 4;
}

struct Net {
    mc::Ctx& ctx;
    sim::Config config;
    bool faults = true;
    bool dead = false;
    int fates = 4;
    int64_t lateUs = 120000;
    uint64_t counts[5] = {};
    std::function<bool(const sim::Datagram&)> eligible, noLoss, drop;

    explicit Net(mc::Ctx& c)
        : ctx(c)
    {
        config.links = Pair::links();
        config.fate = [this](sim::Datagram& d) -> std::vector<int64_t> {
            const auto latency = config.latencyUs;
            const auto k = kindOf(d.data);
            counts[k] += 1;
            if (dead || (drop && drop(d))) {
                ctx.step();
                return {};
            }
            int f = 0;
            if (faults && (!eligible || eligible(d))) {
                if (noLoss && noLoss(d)) {
                    f = ctx.deviate(fates - 1, "fate of a repair");
                    f = f == 0 ? 0 : f + 1;
                } else {
                    f = ctx.deviate(fates, "fate");
                }
            }
            ctx.step();
            ctx.log("%8.1f ms: %s -> %s %s %zu bytes%s",
                    static_cast<double>(d.sentUs) / 1000.0,
                    sim::show(d.from).c_str(),
                    sim::show(d.to).c_str(),
                    kinds[k],
                    d.data.size(),
                    f == 0   ? ""
                    : f == 1 ? " LOST"
                    : f == 2 ? " LATE"
                             : " TWICE");
            switch (f) {
            case 1:
                return {};
            case 2:
                return { latency + lateUs };
            case 3:
                return { latency, latency + 25000 };
            default:
                return { latency };
            }
        };
    }
};

// Both reach connected whatever happens to a bounded number of datagrams
void connectScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    Net net(ctx);
    PairConfig cfg;
    const auto shape = ctx.choose(4, "shape");
    cfg.subIsServer = (shape & 1) != 0;
    if (shape & 2) {
        cfg.pubChannels = { "p" };
        cfg.subChannels = { "s" };
    } else {
        cfg.video = false;
    }
    sim::Guard guard(ctx, net.config);
    Pair pair(ctx);
    pair.make(cfg);
    pair.start();
    const auto ok = pair.connect(9000000);
    ctx.log("connected: %d after %.1f ms", ok, static_cast<double>(env::nowUs()) / 1000.0);
    net.faults = false;
    ctx.check(ok,
              "C02",
              "not-connected",
              "with %d packets affected the endpoints do not both connect: publisher %s, subscriber %s",
              ctx.budget(),
              pair.pub->stateText().c_str(),
              pair.sub->stateText().c_str());
    pair.pub->checkLegal("C02");
    pair.sub->checkLegal("C02");
    ctx.outcome(mc::mix(env::nowUs() / 1000, pair.pub->states.size()));
    ctx.state(mc::mix(net.counts[0], net.counts[1]));
    pair.close();
    pair.pub->checkLegal("C02");
    pair.sub->checkLegal("C02");
    ctx.check(pair.pub->state() == State::Closed && pair.sub->state() == State::Closed,
              "C02",
              "not-closed",
              "after close: publisher %s, subscriber %s",
              pair.pub->stateText().c_str(),
              pair.sub->stateText().c_str());
}


// ----- The same network, watched: no two different packets under one key with the same index

struct Watch {
    struct Sent {
        sim::Addr from;
        mcu::Bytes data;
    };
    std::vector<Sent> rtp, rtcp;

    void attach(sim::Config& c)
    {
        c.tap = [this](const sim::Datagram& d) {
            const auto k = kindOf(d.data);
            if (k == 2) {
                rtp.push_back({ d.from, d.data });
            } else if (k == 3) {
                rtcp.push_back({ d.from, d.data });
            }
        };
    }

    static uint32_t u32(const uint8_t* p)
    {
        return static_cast<uint32_t>(p[0]) << 24 | p[1] << 16 | p[2] << 8 | p[3];
    }

    void check(mc::Ctx& ctx, bool gcm, const char* prop = "S04") const
    {
        struct Roc {
            int64_t highest = -1;
        };
        std::map<std::pair<sim::Addr, uint32_t>, Roc> roc;
        std::map<std::tuple<sim::Addr, uint32_t, int64_t>, const mcu::Bytes*> seen;
        for (const auto& s : rtp) {
            if (s.data.size() < 12) {
                continue;
            }
            const auto ssrc = u32(s.data.data() + 8);
            const auto seq = static_cast<uint16_t>(s.data[2] << 8 | s.data[3]);
            auto& r = roc[{ s.from, ssrc }];
            int64_t index;
            if (r.highest < 0) {
                index = 65536 + seq;
            } else {
                const auto delta = static_cast<int16_t>(seq - static_cast<uint16_t>(r.highest));
                index = r.highest + delta;
            }
            if (index > r.highest) {
                r.highest = index;
            }
            auto& at = seen[{ s.from, ssrc, index }];
            ctx.check(at == nullptr || *at == s.data,
                      prop,
                      "rtp-index-reused",
                      "%s sends two different packets with SSRC %u and sequence number %u",
                      sim::show(s.from).c_str(),
                      ssrc,
                      seq);
            at = &s.data;
        }
        seen.clear();
        for (const auto& s : rtcp) {
            const size_t tail = gcm ? 4 : 14;
            if (s.data.size() < 8 + tail) {
                continue;
            }
            const auto ssrc = u32(s.data.data() + 4);
            const auto index = u32(s.data.data() + s.data.size() - tail) & 0x7fffffff;
            auto& at = seen[{ s.from, ssrc, index }];
            ctx.check(at == nullptr || *at == s.data,
                      prop,
                      "rtcp-index-reused",
                      "%s sends two different RTCP packets with SSRC %u and index %u",
                      sim::show(s.from).c_str(),
                      ssrc,
                      index);
            at = &s.data;
        }
    }
};

// ----- Nobody there

void unreachable(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    Net net(ctx);
    net.faults = false;
    PairConfig cfg;
    const auto what = ctx.choose(6, "reachable");
    cfg.subIsServer = ctx.choose(2, "role") == 1;
    if (ctx.choose(2, "data") == 1) {
        cfg.pubChannels = { "p" };
        cfg.subChannels = { "s" };
    }
    const auto extra = ctx.choose(3, "candidates");
    for (int i = 0; i < extra; i += 1) {
        cfg.extraHostsForPub.push_back("10.9.0." + std::to_string(i + 1) + " 9000");
        cfg.extraHostsForSub.push_back("10.9.0." + std::to_string(i + 1) + " 9000");
    }
    const auto a = sim::addr("10.0.0.1", 5001);
    net.config.fate = [&](sim::Datagram& d) -> std::vector<int64_t> {
        const auto k = kindOf(d.data);
        const bool fromPub = d.from == a;
        ctx.step();
        bool pass = false;
        switch (what) {
        case 0: // nothing passes
            break;
        case 1:
            pass = fromPub;
            break;
        case 2:
            pass = !fromPub;
            break;
        case 3: // connectivity checks only
            pass = k == 0;
            break;
        case 4: // DTLS one way only
            pass = k == 0 || fromPub;
            break;
        case 5:
            pass = k == 0 || !fromPub;
            break;
        }
        return pass ? std::vector<int64_t>{ 10000 } : std::vector<int64_t>{};
    };
    sim::Guard guard(ctx, net.config);
    Pair pair(ctx);
    pair.make(cfg);
    pair.start();
    const auto done = sim::waitFor([&] { return Pair::ended(*pair.pub) && Pair::ended(*pair.sub); }, 20000000);
    ctx.log("ended: %d after %.1f ms", done, static_cast<double>(env::nowUs()) / 1000.0);
    for (const auto& p : { pair.pub, pair.sub }) {
        ctx.check(p->state() == State::Failed,
                  "C02",
                  "not-failed",
                  "%s cannot reach its peer but reports %s",
                  p->label,
                  p->stateText().c_str());
        for (const auto& s : p->states) {
            ctx.check(s.second != State::Connected, "C02", "connected-to-nothing", "%s reports connected", p->label);
        }
        const auto took = p->states.back().first - p->states.front().first;
        ctx.check(took <= 5000000 + 100000 * (extra + 1) + 1000000,
                  "C02",
                  "late-failure",
                  "%s reports failed after %.1f ms",
                  p->label,
                  static_cast<double>(took) / 1000.0);
        p->checkLegal("C02");
    }
    sim::sleepUs(3000000);
    ctx.outcome(mc::mix(env::nowUs() / 1000, what));
    pair.close();
    pair.pub->checkLegal("C02");
    pair.sub->checkLegal("C02");
}

// ----- More candidates than the one that works

void candidates(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    Net net(ctx);
    PairConfig cfg;
    cfg.video = false;
    cfg.subIsServer = ctx.choose(2, "role") == 1;
    const auto before = ctx.choose(4, "before");
    const auto side = ctx.choose(3, "side");
    for (int i = 0; i < before; i += 1) {
        const auto host = "10.9.0." + std::to_string(i + 1) + " 9000";
        if (side != 1) {
            cfg.extraHostsForPub.push_back(host);
        }
        if (side != 0) {
            cfg.extraHostsForSub.push_back(host);
        }
    }
    net.eligible = [&](const sim::Datagram& d) { return sim::show(d.to).rfind("10.9.", 0) != 0; };
    sim::Guard guard(ctx, net.config);
    Pair pair(ctx);
    pair.make(cfg);
    pair.start();
    const auto ok = pair.connect(9000000);
    net.faults = false;
    ctx.check(ok,
              "C02",
              "not-connected",
              "with %d dead candidates before the good one the endpoints do not both connect: publisher %s, "
              "subscriber %s",
              before,
              pair.pub->stateText().c_str(),
              pair.sub->stateText().c_str());
    // The dead ones do not matter any more
    sim::sleepUs(8000000);
    ctx.outcome(mc::mix(env::nowUs() / 1000, pair.pub->states.size()));
    for (const auto& p : { pair.pub, pair.sub }) {
        p->checkLegal("C02");
        ctx.check(p->state() != State::Failed, "C02", "failed-later", "%s: %s", p->label, p->stateText().c_str());
    }
    pair.close();
}

// ----- Data channel messages

struct Message {
    const char* label;
    bool text;
    size_t size;
};

mcu::Bytes content(size_t size, int salt)
{
    mcu::Bytes r(size);
    for (size_t i = 0; i < size; i += 1) {
        r[i] = static_cast<uint8_t>('a' + (i * 7 + i / 251 + salt * 3) % 26);
    }
    return r;
}

void sendMessage(mc::Ctx& ctx, Peer& p, const Message& m, int salt)
{
    const auto c = content(m.size, salt);
    const auto e = m.text ? p.pc->sendDataChannelText(m.label, std::string(c.begin(), c.end()))
                          : p.pc->sendDataChannelBinary(m.label, srtc::ByteBuffer(c.data(), c.size()));
    ctx.check(!e.isError(), "C03", "send-refused", "%s: sending is refused: %s", p.label, e.message.c_str());
}

// What each channel of the peer received, against what was sent
bool received(const Peer& p, const std::vector<Message>& sent, int salt, const std::string& label)
{
    size_t n = 0, want = 0;
    for (const auto& m : sent) {
        want += label == m.label;
    }
    for (const auto& r : p.data) {
        n += r.label == label && (r.kind == "text" || r.kind == "binary");
    }
    (void)salt;
    return n >= want;
}

void checkMessages(mc::Ctx& ctx, const Peer& p, const std::vector<Message>& sent, int salt, const std::string& label)
{
    std::vector<const Received*> got;
    for (const auto& r : p.data) {
        if (r.label == label && (r.kind == "text" || r.kind == "binary")) {
            got.push_back(&r);
        }
    }
    size_t i = 0;
    int n = 0;
    for (const auto& m : sent) {
        n += 1;
        if (label != m.label) {
            continue;
        }
        if (i >= got.size()) {
            ctx.check(false,
                      "C03",
                      "message-missing",
                      "%s: message %zu of %zu bytes on channel %s did not arrive",
                      p.label,
                      i + 1,
                      m.size,
                      label.c_str());
            return;
        }
        ctx.check(got[i]->data == content(m.size, salt + n) && (got[i]->kind == "text") == m.text,
                  "C03",
                  "message-wrong",
                  "%s: message %zu on channel %s should be %zu bytes, arrived as %s of %zu bytes",
                  p.label,
                  i + 1,
                  label.c_str(),
                  m.size,
                  got[i]->kind.c_str(),
                  got[i]->data.size());
        i += 1;
    }
    ctx.check(i == got.size(), "C03", "message-extra", "%s: %zu more messages than sent", p.label, got.size() - i);
}

void dataScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    Net net(ctx);
    Watch watch;
    watch.attach(net.config);
    PairConfig cfg;
    const auto shape = ctx.choose(5, "shape");
    cfg.video = shape == 1;
    cfg.audio = shape >= 2;
    cfg.subIsServer = shape == 2;
    cfg.pubChannels = { "p" };
    cfg.subChannels = { "s" };
    if (shape == 3) {
        cfg.pubChannels = { "p", "s" };
        cfg.subChannels = { "x" };
    } else if (shape == 4) {
        cfg.pubChannels = { "x" };
        cfg.subChannels = { "p", "s" };
    }
    // Faults during the handshake only for some
    const bool early = shape == 0 || shape == 2;
    net.faults = early;
    net.eligible = [&](const sim::Datagram& d) { return kindOf(d.data) == 1; };
    sim::Guard guard(ctx, net.config);
    Pair pair(ctx);
    pair.make(cfg);
    pair.start();
    if (!sim::waitFor([&] { return pair.pub->state() == State::Connected || pair.sub->state() == State::Connected; },
                      9000000)) {
        ctx.check(false, "C03", "not-connected", "shape %d: the endpoints do not connect", shape);
        return;
    }
    net.faults = true;
    sim::waitFor([&] { return pair.pub->state() == State::Connected && pair.sub->state() == State::Connected; },
                 9000000);
    // Before the channels are open, and across them
    const std::vector<Message> fromPub = { { "p", true, 5 }, { "s", false, 3000 }, { "p", false, 0 }, { "p", true, 7000 } };
    const std::vector<Message> fromSub = { { "s", false, 1 }, { "p", true, 2600 }, { "s", true, 12 } };
    int n = 0;
    for (const auto& m : fromPub) {
        n += 1;
        sendMessage(ctx, *pair.pub, m, 10 + n);
    }
    n = 0;
    for (const auto& m : fromSub) {
        n += 1;
        sendMessage(ctx, *pair.sub, m, 20 + n);
    }
    const auto all = [&] {
        return received(*pair.sub, fromPub, 10, "p") && received(*pair.sub, fromPub, 10, "s") &&
               received(*pair.pub, fromSub, 20, "p") && received(*pair.pub, fromSub, 20, "s");
    };
    sim::waitFor(all, 15000000);
    net.faults = false;
    sim::sleepUs(500000);
    ctx.log("all there: %d, %.1f ms", all(), static_cast<double>(env::nowUs()) / 1000.0);
    for (const auto label : { "p", "s" }) {
        checkMessages(ctx, *pair.sub, fromPub, 10, label);
        checkMessages(ctx, *pair.pub, fromSub, 20, label);
    }
    // Nothing lags behind now that the network is in order
    sim::sleepUs(2500000);
    const Message probe = { "p", true, 33 };
    const auto d1 = pair.sub->data.size(), d2 = pair.pub->data.size();
    sendMessage(ctx, *pair.pub, probe, 1);
    sendMessage(ctx, *pair.sub, probe, 2);
    const auto t = env::nowUs();
    sim::waitFor([&] { return pair.sub->data.size() > d1 && pair.pub->data.size() > d2; }, 3000000);
    ctx.check(env::nowUs() - t <= 150000,
              "C03",
              "message-late",
              "on an undisturbed network a message took %.1f ms",
              static_cast<double>(env::nowUs() - t) / 1000.0);
    for (const auto& p : { pair.pub, pair.sub }) {
        p->checkLegal("C02");
        std::map<std::string, int> opened;
        for (const auto& r : p->data) {
            opened[r.label] += r.kind == "open";
        }
        for (const auto label : { "p", "s" }) {
            ctx.check(opened[label] == 1,
                      "C03",
                      "channel-open",
                      "%s: channel %s is reported open %d times",
                      p->label,
                      label,
                      opened[label]);
        }
    }
    ctx.outcome(mc::mix(env::nowUs() / 1000, net.counts[1]));
    ctx.state(mc::mix(shape, net.counts[1]));
    pair.close();
}

// ----- Media

struct Sent {
    mcu::Bytes data;
    bool video;
};

mcu::Bytes vp8(size_t size, bool key, int salt)
{
    auto r = content(size, salt);
    r[0] = key ? 0x10 : 0x11;
    if (key && size >= 10) {
        r[3] = 0x9d;
        r[4] = 0x01;
        r[5] = 0x2a;
    }
    return r;
}

void checkFrames(mc::Ctx& ctx, const Peer& p, const std::vector<Sent>& sent, bool video, const char* prop)
{
    size_t i = 0;
    for (const auto& f : p.frames) {
        if ((f.track->getMediaType() == srtc::MediaType::Video) != video) {
            continue;
        }
        while (i < sent.size() && sent[i].video != video) {
            i += 1;
        }
        if (i == sent.size()) {
            ctx.check(false, prop, "frame-extra", "%s: one frame more than published", video ? "video" : "audio");
            return;
        }
        ctx.check(f.data == sent[i].data,
                  prop,
                  "frame-wrong",
                  "%s frame %zu (%zu bytes) arrived as something else (%zu bytes)",
                  video ? "video" : "audio",
                  i,
                  sent[i].data.size(),
                  f.data.size());
        i += 1;
    }
    for (; i < sent.size(); i += 1) {
        if (sent[i].video == video) {
            ctx.check(false, prop, "frame-missing", "%s frame %zu did not arrive", video ? "video" : "audio", i);
        }
    }
}

void advance(srtc::RtpPacketSource& source, uint16_t to)
{
    for (int i = 0; i < 65536 && source.getNextSequence().second != to; i += 1) {
    }
}

void mediaScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    Net net(ctx);
    Watch watch;
    watch.attach(net.config);
    PairConfig cfg;
    const auto shape = ctx.choose(4, "shape");
    cfg.rtx = (shape & 1) == 0;
    cfg.bwe = shape >= 2;
    cfg.jitterMs = 250;
    cfg.nackDelayMs = 10;
    net.faults = false;
    net.lateUs = 60000;
    sim::Guard guard(ctx, net.config);
    Pair pair(ctx);
    pair.make(cfg);
    pair.start();
    if (!pair.connect()) {
        ctx.check(false, "C03", "not-connected", "the endpoints do not connect");
        return;
    }
    // Across a rollover of the sequence numbers
    advance(*pair.videoPub->getRtpPacketSource(), 65533);
    advance(*pair.audioPub->getRtpPacketSource(), 65534);
    if (cfg.rtx) {
        advance(*pair.videoPub->getRtxPacketSource(), 65534);
        if (pair.audioPub->getRtxSSRC() != 0) {
            advance(*pair.audioPub->getRtxPacketSource(), 65534);
        }
    }

    const auto audioNack = pair.audioSub->hasNack();
    std::vector<Sent> sent;
    auto publish = [&](bool video, mcu::Bytes d, int64_t pts) {
        const auto& t = video ? pair.videoPub : pair.audioPub;
        srtc::ByteBuffer b(d.data(), d.size());
        const auto e = video ? pair.pub->pc->publishVideoFrame(t, pts, std::move(b), 0)
                             : pair.pub->pc->publishAudioFrame(t, pts, std::move(b), 0);
        ctx.check(!e.isError(), "C03", "publish-refused", "publishing is refused: %s", e.message.c_str());
        sent.push_back({ std::move(d), video });
    };
    bool tail = false;
    std::set<uint64_t> before;
    bool repeated = false;
    const auto isRtx = [&](const sim::Datagram& d) {
        const auto ssrc = Watch::u32(d.data.data() + 8);
        return cfg.rtx && (ssrc == pair.videoPub->getRtxSSRC() || ssrc == pair.audioPub->getRtxSSRC());
    };
    // A packet is asked for once: what is lost together with its repair is gone
    net.noLoss = [&](const sim::Datagram& d) {
        return kindOf(d.data) == 3 || repeated || isRtx(d);
    };
    net.eligible = [&](const sim::Datagram& d) {
        const auto k = kindOf(d.data);
        if (k == 2) {
            const auto ssrc = Watch::u32(d.data.data() + 8);
            const auto again = !before.insert(static_cast<uint64_t>(ssrc) << 16 | d.data[2] << 8 | d.data[3]).second;
            repeated = again;
            if (tail && !again && !isRtx(d)) {
                return false;
            }
            // Lost audio is not repaired when negative acknowledgements are not agreed
            return audioNack || ssrc != pair.audioPub->getSSRC();
        }
        return k == 3;
    };
    // One of each first, so that the streams have begun
    publish(true, vp8(300, true, 1), 1000000);
    publish(false, content(80, 2), 1000000);
    sim::sleepUs(30000);
    net.faults = true;
    publish(true, vp8(2500, false, 3), 1033000);
    publish(false, content(81, 4), 1020000);
    sim::sleepUs(30000);
    publish(true, vp8(40, false, 5), 1066000);
    publish(false, content(82, 6), 1040000);
    sim::sleepUs(30000);
    publish(true, vp8(1500, false, 7), 1099000);
    sim::sleepUs(30000);
    // Something after it, so that the loss of the last one is noticed
    tail = true;
    for (int i = 0; i < 12; i += 1) {
        publish(true, vp8(30 + i, false, 8 + i), 1132000 + 33000 * i);
        publish(false, content(90 + i, 9 + i), 1060000 + 20000 * i);
        sim::sleepUs(30000);
    }
    net.faults = false;
    sim::sleepUs(1000000);
    checkFrames(ctx, *pair.sub, sent, true, "C03");
    checkFrames(ctx, *pair.sub, sent, false, "C03");
    // Both support everything, so it is the first that is used
    const bool gcm = std::string(srtc::SrtpConnection::kSrtpCipherList).rfind("SRTP_AEAD_", 0) == 0;
    watch.check(ctx, gcm);
    pair.pub->checkLegal("C02");
    pair.sub->checkLegal("C02");
    ctx.outcome(mc::mix(env::nowUs() / 1000, net.counts[2] * 1000 + net.counts[3]));
    ctx.state(mc::mix(shape, net.counts[2] * 1000 + net.counts[3]));
    pair.close();
}

// ----- Someone else's certificate

void fingerprintScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    Net net(ctx);
    net.faults = false;
    PairConfig cfg;
    cfg.subIsServer = ctx.choose(2, "role") == 1;
    cfg.pubChannels = { "p" };
    cfg.subChannels = { "s" };
    cfg.video = false;
    const auto who = ctx.choose(3, "wrong"); // publisher, subscriber, both
    const auto how = ctx.choose(256 + 4, "difference");
    std::set<sim::Addr> talkers; // sent something other than checks and handshake
    net.config.tap = [&](const sim::Datagram& d) {
        const auto k = kindOf(d.data);
        if (k >= 2 || (k == 1 && d.data[0] == 23)) {
            talkers.insert(d.from);
        }
    };
    sim::Guard guard(ctx, net.config);
    Pair pair(ctx);
    pair.offers(cfg);
    auto spoil = [&](const std::string& text) {
        auto f = attribute(text, "fingerprint"); // "sha-256 AA:BB..."
        const auto at = f.find(' ') + 1;
        if (how < 256) {
            const auto pos = at + static_cast<size_t>(how / 8) * 3;
            auto v = std::stoi(f.substr(pos, 2), nullptr, 16) ^ (1 << (how % 8));
            char hex[3];
            snprintf(hex, sizeof(hex), "%02X", v);
            f[pos] = hex[0];
            f[pos + 1] = hex[1];
        } else if (how == 256) {
            f = f.substr(0, f.size() - 3); // a prefix
        } else if (how == 257) {
            f += ":00";
        } else if (how == 258) {
            f = f.substr(0, at + 2);
        } else {
            f = f.substr(0, at) + f.substr(at + 3) + ":" + f.substr(at, 2); // rotated
        }
        return f;
    };
    if (who != 1) {
        cfg.wrongFingerprintForPub = spoil(pair.sub->offerText);
    }
    if (who != 0) {
        cfg.wrongFingerprintForSub = spoil(pair.pub->offerText);
    }
    if (!pair.answers(cfg, how >= 256)) {
        // Refusing a malformed fingerprint is as good
        pair.close();
        ctx.outcome(1);
        return;
    }
    pair.tracks();
    const auto pubAddr = sim::addr("10.0.0.1", 5001);
    pair.start();
    const auto until = env::nowUs() + 7000000;
    int n = 0;
    while (env::nowUs() < until) {
        const mcu::Bytes d = content(60, n);
        pair.pub->pc->publishAudioFrame(pair.audioPub, 20000 * n, srtc::ByteBuffer(d.data(), d.size()), 0);
        if (n % 10 == 0) {
            (void)pair.pub->pc->sendDataChannelText("p", "secret");
            (void)pair.sub->pc->sendDataChannelText("s", "secret");
        }
        n += 1;
        sim::sleepUs(100000);
    }
    for (int i = 0; i < 2; i += 1) {
        const auto& p = i == 0 ? pair.pub : pair.sub;
        if (who != 2 && who != i) {
            continue;
        }
        for (const auto& s : p->states) {
            ctx.check(s.second != State::Connected,
                      "C07",
                      "connected",
                      "%s reports connected to a peer whose certificate does not match (difference %d)",
                      p->label,
                      how);
        }
        ctx.check(p->state() == State::Failed, "C07", "not-failed", "%s: %s", p->label, p->stateText().c_str());
        ctx.check(p->frames.empty() && p->data.empty(),
                  "C07",
                  "delivered",
                  "%s delivers %zu frames and %zu data channel events from a peer whose certificate does not match",
                  p->label,
                  p->frames.size(),
                  p->data.size());
    }
    const auto fromPub = talkers.count(pubAddr) != 0;
    const auto fromSub = talkers.size() > static_cast<size_t>(fromPub);
    ctx.check(!fromPub || who == 1, "C07", "sent", "the publisher sends media or data to the wrong peer");
    ctx.check(!fromSub || who == 0, "C07", "sent", "the subscriber sends media or data to the wrong peer");
    ctx.outcome(mc::mix(2, static_cast<uint64_t>(env::nowUs() / 1000)));
    pair.close();
}


// ----- Feedback for several tracks, reports, retransmission: every packet under its own index

void feedbackScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    Net net(ctx);
    Watch watch;
    watch.attach(net.config);
    net.faults = false;
    PairConfig cfg;
    cfg.rtx = ctx.choose(2, "rtx") == 1;
    cfg.bwe = ctx.choose(2, "bwe") == 1;
    cfg.audio = ctx.choose(2, "audio") == 1;
    cfg.subIsServer = ctx.choose(2, "role") == 1;
    const auto outage = ctx.choose(2, "outage") == 1;
    cfg.jitterMs = 250;
    cfg.nackDelayMs = 10;
    sim::Guard guard(ctx, net.config);
    Pair pair(ctx);
    pair.make(cfg);
    pair.start();
    if (!pair.connect()) {
        ctx.check(false, "S04", "not-connected", "the endpoints do not connect");
        return;
    }
    const auto lossPattern = ctx.choose(4, "lost");
    std::map<uint32_t, int> count;
    net.drop = [&](const sim::Datagram& d) {
        if (kindOf(d.data) != 2) {
            return false;
        }
        const auto n = count[Watch::u32(d.data.data() + 8)]++;
        return lossPattern == 0 ? n % 5 == 2 : lossPattern == 1 ? n % 7 == 3 || n % 7 == 4 : lossPattern == 2 ? n % 3 == 1 : false;
    };
    advance(*pair.videoPub->getRtpPacketSource(), 65520);
    for (int i = 0; i < 60; i += 1) {
        auto d = vp8(i % 4 == 0 ? 2500 : 100, i == 0, i);
        pair.pub->pc->publishVideoFrame(pair.videoPub, 33000 * i, srtc::ByteBuffer(d.data(), d.size()), 0);
        if (cfg.audio) {
            auto a = content(50, i);
            pair.pub->pc->publishAudioFrame(pair.audioPub, 20000 * i, srtc::ByteBuffer(a.data(), a.size()), 0);
        }
        if (i % 10 == 9) {
            (void)pair.sub->pc->requestPictureLossIndicator(pair.videoSub);
        }
        if (outage && i == 30) {
            net.dead = true;
            sim::sleepUs(6000000);
            net.dead = false;
            sim::sleepUs(1500000);
        }
        sim::sleepUs(i % 20 == 19 ? 5000000 : 30000);
    }
    sim::sleepUs(6000000);
    const bool gcm = std::string(srtc::SrtpConnection::kSrtpCipherList).rfind("SRTP_AEAD_", 0) == 0;
    watch.check(ctx, gcm);
    ctx.outcome(mc::mix(watch.rtp.size(), watch.rtcp.size()));
    pair.close();
}

// ----- Silence, and the end of it

void idleScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    Net net(ctx);
    net.faults = false;
    PairConfig cfg;
    const auto shape = ctx.choose(4, "shape");
    cfg.video = shape == 0;
    cfg.audio = shape == 0 || shape == 1;
    if (shape >= 2) {
        cfg.pubChannels = { "p" };
        cfg.subChannels = { "s" };
    }
    cfg.subIsServer = ctx.choose(2, "role") == 1;
    const auto latency = ctx.choose(3, "latency");
    net.config.latencyUs = latency == 0 ? 1000 : latency == 1 ? 10000 : 150000;
    const auto traffic = ctx.choose(3, "traffic"); // nothing, one way now and then
    sim::Guard guard(ctx, net.config);
    Pair pair(ctx);
    pair.make(cfg);
    pair.start();
    if (!pair.connect()) {
        ctx.check(false, "C09", "not-connected", "the endpoints do not connect");
        return;
    }
    const auto n1 = pair.pub->states.size(), n2 = pair.sub->states.size();
    for (int i = 0; i < 10; i += 1) {
        if (traffic == 1 && cfg.audio) {
            auto a = content(50, i);
            pair.pub->pc->publishAudioFrame(pair.audioPub, 20000 * i, srtc::ByteBuffer(a.data(), a.size()), 0);
        } else if (traffic == 1 && shape >= 2) {
            (void)pair.pub->pc->sendDataChannelText("p", "hello");
        } else if (traffic == 2 && shape >= 2) {
            (void)pair.sub->pc->sendDataChannelText("s", "hello");
        }
        sim::sleepUs(4000000 + 100000 * i);
    }
    ctx.check(pair.pub->states.size() == n1 && pair.sub->states.size() == n2,
              "C09",
              "idle-lost",
              "an idle but reachable connection is reported lost: publisher %s, subscriber %s",
              pair.pub->stateText().c_str(),
              pair.sub->stateText().c_str());
    ctx.outcome(mc::mix(net.counts[0], net.counts[3]));
    pair.close();
}

void outageScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    Net net(ctx);
    net.faults = false;
    PairConfig cfg;
    cfg.video = false;
    cfg.pubChannels = { "p" };
    cfg.subChannels = { "s" };
    const auto traffic = ctx.choose(3, "traffic"); // nothing, media, data
    const auto direction = ctx.choose(3, "direction"); // both, to the subscriber, to the publisher
    static const int durations[] = { 400, 900, 3000, 5000, 5600, 6500, 7500, 8000, 9300, 12000, 30000 };
    const auto duration = 1000 * static_cast<int64_t>(durations[ctx.choose(11, "duration")]);
    static const int starts[] = { 500, 2900, 5050 };
    const auto startUs = 1000 * static_cast<int64_t>(starts[ctx.choose(3, "start")]);
    cfg.subIsServer = ctx.choose(2, "role") == 1;

    const auto pubAddr = sim::addr("10.0.0.1", 5001);
    bool cut = false;
    int64_t lastToPub = 0, lastToSub = 0;
    net.drop = [&](const sim::Datagram& d) {
        const auto toSub = d.from == pubAddr;
        const auto lost = cut && (direction == 0 || (direction == 1) == toSub);
        if (!lost) {
            (toSub ? lastToSub : lastToPub) = env::nowUs() + 10000;
        }
        return lost;
    };
    sim::Guard guard(ctx, net.config);
    Pair pair(ctx);
    pair.make(cfg);
    pair.start();
    if (!pair.connect()) {
        ctx.check(false, "C09", "not-connected", "the endpoints do not connect");
        return;
    }
    int n = 0;
    std::vector<Message> sentData;
    const auto run = [&](int64_t us) {
        const auto until = env::nowUs() + us;
        while (env::nowUs() < until) {
            if (traffic == 1) {
                auto a = content(50, n);
                pair.pub->pc->publishAudioFrame(pair.audioPub, 20000 * n, srtc::ByteBuffer(a.data(), a.size()), 0);
            } else if (traffic == 2 && n % 5 == 0 && !Pair::ended(*pair.pub)) {
                (void)pair.pub->pc->sendDataChannelText("p", "hello");
            }
            n += 1;
            sim::sleepUs(std::min<int64_t>(100000, until - env::nowUs()));
            for (int i = 0; i < 2; i += 1) {
                const auto& p = i == 0 ? pair.pub : pair.sub;
                const auto last = i == 0 ? lastToPub : lastToSub;
                const auto quiet = env::nowUs() - last;
                const auto in = env::nowUs() - p->states.back().first;
                ctx.check(p->state() != State::Connected || quiet <= 5000000 + 200000,
                          "C09",
                          "not-noticed",
                          "%s has received nothing for %.1f ms and still reports connected",
                          p->label,
                          static_cast<double>(quiet) / 1000.0);
                ctx.check(p->state() != State::Connecting || in <= 5000000 + 200000,
                          "C09",
                          "not-failed",
                          "%s has been reconnecting for %.1f ms",
                          p->label,
                          static_cast<double>(in) / 1000.0);
            }
        }
    };
    run(startUs);
    cut = true;
    const auto cutAt = env::nowUs();
    run(duration);
    cut = false;
    const auto restoredAt = env::nowUs();
    const auto was1 = pair.pub->state(), was2 = pair.sub->state();
    const auto since1 = pair.pub->states.back().first, since2 = pair.sub->states.back().first;
    ctx.log("%8.1f ms: restored, publisher %s, subscriber %s", restoredAt / 1000.0, name(was1), name(was2));
    net.faults = true;
    run(1200000);
    net.faults = false;
    for (int i = 0; i < 2; i += 1) {
        const auto& p = i == 0 ? pair.pub : pair.sub;
        const auto was = i == 0 ? was1 : was2;
        const auto since = i == 0 ? since1 : since2;
        const auto other = i == 0 ? was2 : was1;
        const auto otherSince = i == 0 ? since2 : since1;
        if (was == State::Connecting && since + 5000000 > restoredAt + 1200000 &&
            (other == State::Connected || (other == State::Connecting && otherSince + 5000000 > restoredAt + 1200000))) {
            ctx.check(p->state() == State::Connected,
                      "C09",
                      "not-restored",
                      "%s was reconnecting when its peer became reachable again, %.1f ms before the limit, but is %s",
                      p->label,
                      static_cast<double>(since + 5000000 - restoredAt) / 1000.0,
                      name(p->state()));
        }
        if (duration < 1000000) {
            ctx.check(p->stateText() == "connecting,connected",
                      "C09",
                      "false-alarm",
                      "%s, after a silence of %.1f ms: %s",
                      p->label,
                      static_cast<double>(duration) / 1000.0,
                      p->stateText().c_str());
        }
    }
    run(12000000);
    // It works again, or it is over
    const auto over = Pair::ended(*pair.pub) || Pair::ended(*pair.sub);
    if (!over) {
        ctx.check(pair.pub->state() == State::Connected && pair.sub->state() == State::Connected,
                  "C09",
                  "neither",
                  "%.1f ms after the end of the silence: publisher %s, subscriber %s",
                  static_cast<double>(env::nowUs() - restoredAt) / 1000.0,
                  pair.pub->stateText().c_str(),
                  pair.sub->stateText().c_str());
        const auto framesBefore = pair.sub->frames.size(), dataBefore = pair.sub->data.size();
        for (int i = 0; i < 5; i += 1) {
            auto a = content(70 + i, 100 + i);
            pair.pub->pc->publishAudioFrame(pair.audioPub, 20000 * (n + i), srtc::ByteBuffer(a.data(), a.size()), 0);
        }
        (void)pair.pub->pc->sendDataChannelText("p", "again");
        run(1000000);
        ctx.check(pair.sub->frames.size() >= framesBefore + 5,
                  "C09",
                  "no-media-after",
                  "the connection is restored but only %zu of 5 frames arrive",
                  pair.sub->frames.size() - framesBefore);
        const mcu::Bytes again = { 'a', 'g', 'a', 'i', 'n' };
        size_t arrived = 0;
        for (auto i = dataBefore; i < pair.sub->data.size(); i += 1) {
            arrived += pair.sub->data[i].data == again;
        }
        ctx.check(arrived == 1,
                  "C09",
                  "no-data-after",
                  "the connection is restored but a message sent after it arrives %zu times",
                  arrived);
    } else if (duration > 11000000 && direction == 0) {
        ctx.check(pair.pub->state() == State::Failed && pair.sub->state() == State::Failed,
                  "C09",
                  "not-reported-failed",
                  "publisher %s, subscriber %s",
                  pair.pub->stateText().c_str(),
                  pair.sub->stateText().c_str());
    } else {
        run(1000000);
        ctx.check(Pair::ended(*pair.pub) && Pair::ended(*pair.sub) && duration > 4500000,
                  "C09",
                  "one-ended",
                  "after a silence of %.1f ms: publisher %s, subscriber %s",
                  static_cast<double>(duration) / 1000.0,
                  pair.pub->stateText().c_str(),
                  pair.sub->stateText().c_str());
    }
    (void)cutAt;
    pair.pub->checkLegal("C02");
    pair.sub->checkLegal("C02");
    ctx.outcome(mc::mix(pair.pub->states.size() * 16 + pair.sub->states.size(),
                        static_cast<int>(pair.pub->state()) * 16 + static_cast<int>(pair.sub->state())));
    ctx.state(mc::mix(pair.pub->states.back().first / 100000, pair.sub->states.back().first / 100000));
    pair.close();
}

} // namespace

namespace mc
{

void registerScenarios(bool)
{
    env::quiet();
    SSL_library_init();
    add("connect", { "C02" }, 2, 3, connectScenario);
    add("unreachable", { "C02" }, 0, 0, unreachable);
    add("candidates", { "C02" }, 1, 2, candidates);
    add("data", { "C03", "C02", "S04" }, 1, 2, dataScenario);
    add("media", { "C03", "C02", "S04" }, 1, 2, mediaScenario);
    add("feedback", { "S04" }, 0, 0, feedbackScenario);
    add("idle", { "C09" }, 0, 0, idleScenario);
    add("outage", { "C09", "C02" }, 0, 1, outageScenario);
    add("fingerprint", { "C07" }, 0, 0, fingerprintScenario);
}

} // namespace mc
