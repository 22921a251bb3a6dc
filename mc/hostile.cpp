// Datagrams which are not authentic, sent into an established connection
#include "peers.h"

#include <openssl/ssl.h>

#include <set>

using namespace peers;

namespace
{

Bytes content(size_t size, int salt)
{
    Bytes r(size);
    for (size_t i = 0; i < size; i += 1) {
        r[i] = static_cast<uint8_t>('a' + (i * 7 + i / 251 + salt * 3) % 26);
    }
    return r;
}

Bytes vp8(size_t size, bool key, int salt)
{
    auto r = content(size, salt);
    r[0] = key ? 0x10 : 0x11;
    if (key && size >= 10) {
        r[3] = 0x9d;
        r[4] = 0x01;
        r[5] = 0x2a;
    }
    return r;
}

const char* kActs[] = { "",
                        "an empty datagram first",
                        "each byte changed (01)",
                        "each byte changed (80)",
                        "each byte changed (ff)",
                        "cut off everywhere",
                        "extended",
                        "sent back to the sender",
                        "from somewhere else",
                        "anything",
                        "repeated",
                        "datagrams of the time before",
                        "changed datagrams of the time before" };
constexpr int kActCount = 13;

// The datagrams an attacker can make of the one it sees
std::vector<Bytes> variants(int act, const Bytes& d, const std::vector<Bytes>& before)
{
    std::vector<Bytes> r;
    const auto changed = [&r](const Bytes& b, uint8_t x) {
        for (size_t i = 0; i < b.size(); i += b.size() > 200 && i >= 60 && i + 60 < b.size() ? 13 : 1) {
            auto c = b;
            c[i] ^= x;
            r.push_back(c);
        }
    };
    switch (act) {
    case 1:
        r.push_back({});
        break;
    case 2:
        changed(d, 0x01);
        break;
    case 3:
        changed(d, 0x80);
        break;
    case 4:
        changed(d, 0xff);
        break;
    case 5:
        for (size_t n = d.size() > 200 ? d.size() - 60 : 1; n < d.size(); n += 1) {
            r.emplace_back(d.begin(), d.begin() + static_cast<long>(n));
        }
        for (size_t n = 1; n < 140 && n < d.size(); n += 1) {
            r.emplace_back(d.begin(), d.begin() + static_cast<long>(n));
        }
        break;
    case 6:
        for (size_t n = 1; n <= 24; n += 1) {
            auto c = d;
            c.insert(c.end(), n, static_cast<uint8_t>(n));
            r.push_back(c);
        }
        break;
    case 9:
        for (int b = 0; b < 256; b += 1) {
            for (const size_t n : { 1u, 3u, 8u, 12u, 13u, 40u }) {
                Bytes c(n, static_cast<uint8_t>(b == 0 ? 0 : 0x80 | b));
                c[0] = static_cast<uint8_t>(b);
                if (n >= 13 && b >= 20 && b < 64) {
                    // As a DTLS record
                    const Bytes h = { static_cast<uint8_t>(b), 0xfe, 0xfd, 0, 1, 0, 0, 0, 0, 0, 7, 0, static_cast<uint8_t>(n - 13) };
                    std::copy(h.begin(), h.end(), c.begin());
                }
                r.push_back(c);
            }
        }
        break;
    case 12:
        for (const auto& b : before) {
            if (b.size() > 4 && b[0] >= 20 && b[0] <= 63) {
                changed(b, 0x01);
            }
        }
        break;
    default:
        break;
    }
    return r;
}

struct Session {
    mc::Ctx& ctx;
    sim::Config config;
    bool on = false;
    std::vector<std::pair<bool, Bytes>> before; // while connecting: by the publisher or not
    uint64_t count = 0;
    std::string did;
    std::function<bool(int, const Bytes&)> applies;

    explicit Session(mc::Ctx& c)
        : ctx(c)
    {
        config.links = Pair::links();
        const auto pubAddr = sim::addr("10.0.0.1", 5001);
        config.fate = [this, pubAddr](sim::Datagram& d) -> std::vector<int64_t> {
            const auto latency = config.latencyUs;
            count += 1;
            const auto isPub = d.from == pubAddr;
            if (!on) {
                before.emplace_back(isPub, d.data);
                return { latency };
            }
            ctx.step();
            const auto act = ctx.deviate(kActCount, "attack");
            if (act != 0 && (!applies || applies(act, d.data))) {
                attack(act, d, isPub);
            }
            return { latency };
        };
    }

    void attack(int act, const sim::Datagram& d, bool isPub)
    {
        char t[160];
        snprintf(t, sizeof(t), "%s at %.1f ms, on a datagram of %zu bytes beginning %s from the %s",
                 kActs[act],
                 static_cast<double>(env::nowUs()) / 1000.0,
                 d.data.size(),
                 mcu::hex(d.data, 4).c_str(),
                 isPub ? "publisher" : "subscriber");
        did = t;
        ctx.log("%s", t);
        const auto latency = config.latencyUs;
        std::vector<Bytes> old;
        for (const auto& b : before) {
            if (b.first == isPub) {
                old.push_back(b.second);
            }
        }
        switch (act) {
        case 1:
            sim::inject(d.from, d.to, {}, latency);
            break;
        case 7:
            sim::inject(d.to, d.from, d.data, 3000);
            break;
        case 8:
            sim::inject(sim::addr("10.9.9.9", 5002), d.to, d.data, 3000);
            sim::inject(sim::addr("10.0.0.2", 5003), d.to, d.data, 3000);
            break;
        case 10:
            for (const auto t2 : { 0, 1000, 31000, 700000 }) {
                sim::inject(d.from, d.to, d.data, latency + t2);
            }
            break;
        case 11:
            for (const auto& b : old) {
                sim::inject(d.from, d.to, b, 3000);
            }
            break;
        default:
            for (const auto& v : variants(act, d.data, old)) {
                sim::inject(d.from, d.to, v, act == 9 || act == 12 ? 3000 : latency - 1000);
            }
            break;
        }
    }
};

std::vector<Bytes> messagesOf(const Peer& p)
{
    std::vector<Bytes> r;
    for (const auto& m : p.data) {
        if (m.kind == "binary" || m.kind == "text") {
            r.push_back(m.data);
        }
    }
    return r;
}

void sessionScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    PairConfig cfg;
    const auto shape = ctx.choose(2, "shape");
    cfg.subIsServer = shape != 0;
    cfg.bwe = shape != 0;
    cfg.jitterMs = 100;
    cfg.nackDelayMs = 10;
    cfg.pubChannels = { "p" };
    cfg.subChannels = { "s" };
    Session session(ctx);
    sim::Guard guard(ctx, session.config);
    Pair pair(ctx);
    pair.make(cfg);
    pair.start();
    if (!pair.connect()) {
        ctx.violation("not-connected", "the endpoints do not connect");
    }
    const auto opened = [](const Peer& p) {
        size_t n = 0;
        for (const auto& r : p.data) {
            n += r.kind == "open";
        }
        return n == 2;
    };
    if (!sim::waitFor([&] { return opened(*pair.pub) && opened(*pair.sub); }, 3000000)) {
        ctx.violation("not-open", "the data channels do not open");
    }
    // One of each, so that the streams have begun
    std::vector<Bytes> video, audio, toSub, toPub;
    const auto publishVideo = [&](Bytes d) {
        video.push_back(d);
        pair.pub->pc->publishVideoFrame(pair.videoPub, 1000000 + env::nowUs(), mcu::toBuf(d), 0);
    };
    const auto publishAudio = [&](Bytes d) {
        audio.push_back(d);
        pair.pub->pc->publishAudioFrame(pair.audioPub, 1000000 + env::nowUs(), mcu::toBuf(d), 0);
    };
    publishVideo(vp8(100, true, 1));
    publishAudio(content(50, 1));
    sim::sleepUs(50000);
    session.on = true;
    for (int i = 0; i < 4; i += 1) {
        publishVideo(vp8(i == 1 ? 1500 : 60 + static_cast<size_t>(i), false, 2 + i));
        publishAudio(content(60 + static_cast<size_t>(i), 20 + i));
        toSub.push_back(content(30 + static_cast<size_t>(i), 40 + i));
        toPub.push_back(content(130 + static_cast<size_t>(i), 60 + i));
        pair.pub->pc->sendDataChannelBinary("p", mcu::toBuf(toSub.back()));
        pair.sub->pc->sendDataChannelBinary("p", mcu::toBuf(toPub.back()));
        sim::sleepUs(40000);
        if (i == 1) {
            // Long enough for keep-alives and reports
            sim::sleepUs(3500000);
        }
    }
    session.on = false;
    sim::sleepUs(1500000);

    const char* P = "C10";
    std::vector<Bytes> gotVideo, gotAudio;
    for (const auto& f : pair.sub->frames) {
        (f.track->getMediaType() == srtc::MediaType::Video ? gotVideo : gotAudio).push_back(f.data);
    }
    const auto text = session.did.c_str();
    ctx.check(gotVideo == video, P, "video", "of %zu video frames %zu are delivered unchanged: %s", video.size(), gotVideo.size(), text);
    ctx.check(gotAudio == audio, P, "audio", "of %zu audio frames %zu are delivered unchanged: %s", audio.size(), gotAudio.size(), text);
    const auto events = [](const Peer& p) {
        size_t n = 0;
        for (const auto& m : p.data) {
            n += m.kind == "open" || m.kind == "close";
        }
        return n;
    };
    ctx.check(messagesOf(*pair.sub) == toSub, P, "messages", "of %zu messages %zu are delivered: %s", toSub.size(), messagesOf(*pair.sub).size(), text);
    ctx.check(messagesOf(*pair.pub) == toPub, P, "messages", "of %zu messages %zu are delivered: %s", toPub.size(), messagesOf(*pair.pub).size(), text);
    ctx.check(events(*pair.sub) == 2 && events(*pair.pub) == 2, P, "channels", "the channels do not stay open: %s", text);
    for (const auto p : { &*pair.pub, &*pair.sub }) {
        ctx.check(p->stateText() == "connecting,connected", P, "state", "%s: states %s: %s", p->label, p->stateText().c_str(), text);
    }
    ctx.check(pair.pub->keyFrameRequests == 0, P, "key-frame", "a key frame is asked for: %s", text);
    ctx.outcome(session.count);
    ctx.state(mc::mix(session.count, static_cast<uint64_t>(shape)));
    pair.close();
}

// While the connection is being made. What is not protected yet, as are the first messages of the handshake, anyone
// can change: here only what can be told apart.
void connectingScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    PairConfig cfg;
    const auto shape = ctx.choose(2, "role");
    cfg.subIsServer = shape != 0;
    cfg.pubChannels = { "p" };
    cfg.subChannels = { "s" };
    Session session(ctx);
    session.applies = [](int act, const Bytes& d) {
        const auto dtls = !d.empty() && d[0] >= 20 && d[0] <= 63;
        return act == 1 || act == 8 || act == 9 || act == 10 || (act <= 7 && !dtls);
    };
    session.on = true;
    sim::Guard guard(ctx, session.config);
    Pair pair(ctx);
    pair.make(cfg);
    pair.start();
    const char* P = "C10";
    const auto ok = pair.connect();
    ctx.check(ok, P, "not-connected", "the endpoints do not connect: %s", session.did.c_str());
    sim::sleepUs(100000);
    session.on = false;
    sim::sleepUs(300000);
    for (const auto p : { &*pair.pub, &*pair.sub }) {
        ctx.check(p->stateText() == "connecting,connected", P, "state", "%s: states %s: %s", p->label, p->stateText().c_str(), session.did.c_str());
        size_t n = 0;
        for (const auto& m : p->data) {
            n += m.kind == "open";
        }
        ctx.check(n == 2 && p->data.size() == 2, P, "channels", "%s: %zu channels open: %s", p->label, n, session.did.c_str());
    }
    ctx.outcome(session.count);
    ctx.state(mc::mix(session.count, static_cast<uint64_t>(shape)));
    pair.close();
}

// Nothing authentic arrives any more: whatever else arrives does not keep the connection
void deadScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    sim::Config config;
    config.links = Pair::links();
    const auto pubAddr = sim::addr("10.0.0.1", 5001);
    const auto subAddr = sim::addr("10.0.0.2", 5002);
    bool cut = false;
    std::vector<std::pair<bool, Bytes>> seen;
    config.fate = [&](sim::Datagram& d) -> std::vector<int64_t> {
        if (cut) {
            return {};
        }
        seen.emplace_back(d.from == pubAddr, d.data);
        return { config.latencyUs };
    };
    PairConfig cfg;
    cfg.subIsServer = ctx.choose(2, "role") != 0;
    cfg.pubChannels = { "p" };
    cfg.subChannels = { "s" };
    const auto act = 1 + ctx.choose(kActCount - 1, "attack");
    sim::Guard guard(ctx, config);
    Pair pair(ctx);
    pair.make(cfg);
    pair.start();
    if (!pair.connect()) {
        ctx.violation("not-connected", "the endpoints do not connect");
    }
    for (int i = 0; i < 3; i += 1) {
        pair.pub->pc->publishVideoFrame(pair.videoPub, 1000000 + env::nowUs(), mcu::toBuf(vp8(300, i == 0, i)), 0);
        pair.pub->pc->publishAudioFrame(pair.audioPub, 1000000 + env::nowUs(), mcu::toBuf(content(50, i)), 0);
        pair.pub->pc->sendDataChannelText("p", "abc");
        pair.sub->pc->sendDataChannelText("p", "def");
        sim::sleepUs(1200000);
    }
    cut = true;
    sim::sleepUs(20000);
    const auto frames = pair.sub->frames.size();
    const auto data = messagesOf(*pair.sub).size() + messagesOf(*pair.pub).size();
    const auto at = env::nowUs();
    ctx.log("%8.1f ms: cut, then %s", static_cast<double>(at) / 1000.0, kActs[act]);
    // In turn, all kinds of what was seen
    size_t next = 0;
    while (env::nowUs() < at + 11500000) {
        for (int i = 0; i < 4; i += 1) {
            const auto& s = seen[next++ % seen.size()];
            const auto& from = s.first ? pubAddr : subAddr;
            const auto& to = s.first ? subAddr : pubAddr;
            switch (act) {
            case 1:
                sim::inject(from, to, {}, 1000);
                break;
            case 7:
                sim::inject(to, from, s.second, 1000);
                break;
            case 8:
                sim::inject(sim::addr("10.9.9.9", 5002), to, s.second, 1000);
                break;
            case 10:
            case 11:
            case 12:
                sim::inject(from, to, s.second, 1000);
                break;
            default: {
                auto v = variants(act, s.second, {});
                const auto stride = 1 + v.size() / 12;
                for (size_t k = next % stride; k < v.size(); k += stride) {
                    sim::inject(from, to, v[k], 1000);
                }
                break;
            }
            }
        }
        ctx.step();
        sim::sleepUs(100000);
    }
    const char* P = "C10";
    ctx.check(pair.sub->frames.size() == frames, P, "frames", "frames are delivered from what is not authentic: %s", kActs[act]);
    ctx.check(messagesOf(*pair.sub).size() + messagesOf(*pair.pub).size() == data, P, "messages", "messages are delivered from what is not authentic: %s", kActs[act]);
    for (const auto p : { &*pair.pub, &*pair.sub }) {
        ctx.check(p->stateText() == "connecting,connected,connecting,failed",
                  P,
                  "kept",
                  "%s: with nothing authentic arriving (%s) the states are %s",
                  p->label,
                  kActs[act],
                  p->stateText().c_str());
        int64_t lost = 0;
        for (const auto& s : p->states) {
            if (s.second == State::Connecting) {
                lost = s.first;
            }
        }
        ctx.check(lost <= at + 5100000, P, "kept-longer", "%s: the loss is noticed %.1f ms after", p->label, static_cast<double>(lost - at) / 1000.0);
    }
    ctx.outcome(mc::mix(static_cast<uint64_t>(act), env::nowUs()));
    ctx.state(seen.size());
    pair.close();
}

} // namespace

namespace mc
{

void registerScenarios(bool)
{
    env::quiet();
    SSL_library_init();
    const std::vector<std::string> p = { "C10" };
    add("session", p, 1, 2, sessionScenario, false, 60);
    add("connecting", p, 1, 2, connectingScenario, false, 60);
    add("dead", p, 0, 0, deadScenario, false, 60);
}

} // namespace mc
