// Application threads against the connection's own thread: every interleaving up to a preemption bound of calls to
// the public interface, and closing at every moment and from everywhere
#include "peers.h"

#include "srtc/logging.h"
#include "srtc/track_stats.h"

#include <openssl/ssl.h>

#include <atomic>
#include <cstdarg>
#include <iostream>
#include <streambuf>
#include <thread>

using namespace peers;

namespace
{

// What the application's listeners saw, of one connection
struct Seen {
    int callbacks = 0;
    int afterClose = 0;
    bool closed = false; // close() has returned on a thread of the application
    std::vector<State> states;
    int frames = 0, texts = 0, opens = 0, binaries = 0, stats = 0, reports = 0, keyFrames = 0;
    std::function<void(const char*)> also; // called in the listeners

    void called(const char* what)
    {
        std::function<void(const char*)> f;
        {
            const sim::Quiet q;
            callbacks += 1;
            if (closed) {
                afterClose += 1;
            }
            if (also) {
                f = also;
            }
        }
        if (f) {
            f(what);
        }
    }

    [[nodiscard]] State state() const
    {
        return states.empty() ? State::Inactive : states.back();
    }
};

struct DataSeen : srtc::PeerConnection::DataChannelListener {
    std::shared_ptr<Seen> s;

    explicit DataSeen(std::shared_ptr<Seen> seen)
        : s(std::move(seen))
    {
    }
    void onDataChannelOpened(const std::string&) override
    {
        s->opens += 1;
        s->called("open");
    }
    void onDataChannelClosed(const std::string&) override
    {
        s->called("channel closed");
    }
    void onDataChannelReceivedText(const std::string&, const std::string&) override
    {
        s->texts += 1;
        s->called("text");
    }
    void onDataChannelReceivedBinary(const std::string&, const srtc::ByteBuffer&) override
    {
        s->binaries += 1;
        s->called("binary");
    }
};

// As an application would: the listeners own what they use
void setStateListener(srtc::PeerConnection& pc, const std::shared_ptr<Seen>& s)
{
    pc.setConnectionStateListener([s](State st) {
        {
            const sim::Quiet q;
            s->states.push_back(st);
        }
        s->called(name(st));
    });
}

void setListeners(srtc::PeerConnection& pc, const std::shared_ptr<Seen>& s)
{
    setStateListener(pc, s);
    pc.setSubscribeEncodedFrameListener([s](const std::shared_ptr<srtc::EncodedFrame>&) {
        s->frames += 1;
        s->called("frame");
    });
    pc.setPublishConnectionStatsListener([s](const srtc::PublishConnectionStats&) {
        s->stats += 1;
        s->called("stats");
    });
    pc.setSubscribeConnectionStatsListener([s](const srtc::SubscribeConnectionStats&) {
        s->stats += 1;
        s->called("stats");
    });
    pc.setPublishKeyFrameRequestedListener([s] {
        s->keyFrames += 1;
        s->called("key frame request");
    });
    pc.setSubscribeSenderReportsListener([s](const std::shared_ptr<srtc::Track>&, const srtc::SenderReport&) {
        s->reports += 1;
        s->called("sender report");
    });
    pc.setDataChannelListener(std::make_shared<DataSeen>(s));
}

void clearListeners(srtc::PeerConnection& pc)
{
    pc.setSubscribeEncodedFrameListener({});
    pc.setPublishConnectionStatsListener({});
    pc.setSubscribeConnectionStatsListener({});
    pc.setPublishKeyFrameRequestedListener({});
    pc.setSubscribeSenderReportsListener({});
    pc.setDataChannelListener(nullptr);
}

srtc::ByteBuffer vp8Frame(size_t size, bool key)
{
    mcu::Bytes b(size, 0x5a);
    b[0] = key ? 0x10 : 0x11;
    if (key && size >= 10) {
        const uint8_t head[] = { 0x9d, 0x01, 0x2a, 0x40, 0x01, 0xf0, 0x00 };
        memcpy(b.data() + 3, head, sizeof(head));
    }
    return { b.data(), b.size() };
}

struct Side {
    srtc::PeerConnection* pc = nullptr;
    std::shared_ptr<Seen> seen;
    std::shared_ptr<srtc::Track> video, audio;
    const char* channel = "p";
    const char* label = "?";
};

struct World {
    mc::Ctx& ctx;
    sim::Config config;
    Pair pair;
    Side side[2];
    int sent = 0; // datagrams
    std::function<void()> onSend;

    World(mc::Ctx& c, bool preempt)
        : ctx(c)
        , pair(c)
    {
        config.links = Pair::links();
        config.preempt = preempt;
        config.chooseOnBlockCosts = preempt;
        config.fate = [this](sim::Datagram& d) -> std::vector<int64_t> {
            sent += 1;
            ctx.step();
            ctx.log("%8.1f ms: datagram %d %s -> %s, %zu bytes",
                    static_cast<double>(d.sentUs) / 1000.0,
                    sent,
                    sim::show(d.from).c_str(),
                    sim::show(d.to).c_str(),
                    d.data.size());
            return { config.latencyUs };
        };
    }

    void make(const PairConfig& cfg)
    {
        pair.make(cfg);
        for (int i = 0; i < 2; i += 1) {
            auto& s = side[i];
            const auto& p = i == 0 ? pair.pub : pair.sub;
            s.pc = p->pc.get();
            s.seen = std::make_shared<Seen>();
            s.video = i == 0 ? pair.videoPub : pair.videoSub;
            s.audio = i == 0 ? pair.audioPub : pair.audioSub;
            s.channel = i == 0 ? "p" : "s";
            s.label = i == 0 ? "publisher" : "subscriber";
            setListeners(*s.pc, s.seen);
        }
    }

    bool connect()
    {
        return sim::waitFor(
            [this] {
                return side[0].seen->state() == State::Connected && side[1].seen->state() == State::Connected;
            },
            10000000);
    }

    // After close() of one on an application's thread, not called back by it
    void closed(Side& s, const char* how)
    {
        const sim::Quiet q;
        ctx.log("%8.1f ms: %s: %s returned", static_cast<double>(env::nowUs()) / 1000.0, s.label, how);
        s.seen->closed = true;
        const auto st = s.seen->state();
        ctx.check(st == State::Inactive || st == State::Closed || st == State::Failed,
                  "C04",
                  "close-returned-early",
                  "%s: %s returned while the state is %s",
                  s.label,
                  how,
                  name(st));
    }

    void verify()
    {
        for (auto& s : side) {
            ctx.check(s.seen->afterClose == 0,
                      "C04",
                      "callback-after-close",
                      "%s: %d calls of listeners after close returned",
                      s.label,
                      s.seen->afterClose);
        }
    }

    void destroy(int i)
    {
        (i == 0 ? pair.pub : pair.sub)->pc.reset();
        side[i].pc = nullptr;
        sim::sleepUs(20000);
    }

    // Close and destroy what is left, check that nothing remains
    void finish()
    {
        for (int i = 0; i < 2; i += 1) {
            if (side[i].pc) {
                side[i].pc->close();
                closed(side[i], "close()");
            }
        }
        sim::sleepUs(200000);
        for (int i = 0; i < 2; i += 1) {
            if (side[i].pc) {
                destroy(i);
            }
        }
        sim::sleepUs(300000);
        verify();
        ctx.check(sim::liveThreads() == 0,
                  "C04",
                  "thread-left",
                  "%d threads remain after the connections were closed and destroyed",
                  sim::liveThreads());
        ctx.check(sim::openSockets() == 0, "C04", "socket-left", "%d sockets remain open", sim::openSockets());
        ctx.outcome(mc::mix(side[0].seen->callbacks, side[1].seen->callbacks));
        uint64_t h = 0;
        for (const auto& s : side) {
            for (const auto st : s.seen->states) {
                h = mc::mix(h, static_cast<uint64_t>(st));
            }
            h = mc::mix(h, s.seen->frames * 100 + s.seen->texts * 10 + s.seen->opens);
            h = mc::mix(h, s.seen->stats * 100 + s.seen->reports * 10 + s.seen->keyFrames);
        }
        ctx.state(mc::mix(h, env::nowUs() / 1000));
    }
};

// ----- The operations

constexpr int kClose = 10;
constexpr int kOps = 11;

const char* opNames[kOps] = { "publish or request video",
                              "publish audio",
                              "codec data",
                              "layer update",
                              "send text",
                              "send binary",
                              "statistics",
                              "description",
                              "replace listeners",
                              "another connection",
                              "close" };

// True if the application could use the outcome
void perform(World& w, Side& s, int op, bool inListener)
{
    auto& pc = *s.pc;
    {
        const sim::Quiet q;
        w.ctx.log("%8.1f ms: %s: %s", static_cast<double>(env::nowUs()) / 1000.0, s.label, opNames[op]);
    }
    const bool pub = s.label[0] == 'p';
    switch (op) {
    case 0:
        if (pub) {
            pc.publishVideoFrame(s.video, 40000, vp8Frame(1500, true));
        } else {
            (void)pc.requestPictureLossIndicator(s.video);
        }
        break;
    case 1:
        if (pub) {
            pc.publishAudioFrame(s.audio, 40000, vp8Frame(60, true));
        } else {
            (void)pc.requestPictureLossIndicator(s.video);
        }
        break;
    case 2: {
        std::vector<srtc::ByteBuffer> list;
        list.push_back(vp8Frame(12, true));
        pc.setVideoCodecSpecificData(s.video, std::move(list));
        break;
    }
    case 3: {
        srtc::SimulcastLayer layer;
        layer.name = "l";
        layer.width = 320;
        layer.height = 180;
        layer.frames_per_second = 15;
        layer.kilobits_per_second = 300;
        pc.updateVideoSimulcastLayer(s.video, layer);
        break;
    }
    case 4:
        (void)pc.sendDataChannelText(s.channel, "a text");
        break;
    case 5: {
        const mcu::Bytes b(3000, 7);
        (void)pc.sendDataChannelBinary(s.channel, srtc::ByteBuffer(b.data(), b.size()));
        break;
    }
    case 6: {
        const auto list = pc.getTrackList();
        for (const auto& t : list) {
            const auto st = t->getStats();
            volatile size_t sum = st->getSentFrames() + st->getSentPackets() + st->getSentBytes() +
                                  st->getReceivedFrames() + st->getReceivedPackets() + st->getReceivedBytes() +
                                  st->getReceivedPacketsLost();
            sum = st->getReceivedHighestSeqEx();
            if (const auto sr = st->getReceivedSenderReport(); sr.has_value()) {
                sum = sr->packet_count;
            }
            (void)sum;
        }
        break;
    }
    case 7: {
        (void)pc.getDataChannelMaxMessageSize();
        const auto media = pc.getMediaList();
        const auto offer = pc.getOffer();
        const auto answer = pc.getAnswer();
        if (answer) {
            (void)answer->getTrackList().size();
        }
        srtc::setLogLevel(SRTC_LOG_Z + 1);
        break;
    }
    case 8:
        if (inListener) {
            setListeners(pc, s.seen);
        } else {
            clearListeners(pc);
            setListeners(pc, s.seen);
        }
        break;
    case 9: {
        srtc::PeerConnection another(srtc::Direction::Publish);
        srtc::PubOfferConfig po;
        po.cname = "another";
        po.enable_rtx = true;
        srtc::PubMediaConfig pm;
        pm.media_list.push_back({ "a", srtc::MediaType::Audio, { { srtc::Codec::Opus } }, {} });
        const auto offer = another.createPublishOffer(po, pm).first;
        (void)offer->generate();
        another.setOffer(offer);
        another.close();
        break;
    }
    case kClose:
        pc.close();
        if (!inListener) {
            w.closed(s, "close()");
        }
        break;
    }
}

PairConfig config()
{
    PairConfig cfg;
    cfg.pubChannels = { "p" };
    cfg.subChannels = { "s" };
    return cfg;
}

// Two calls on two threads, while data of all kinds arrives and timers expire
void calls(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    const auto subject = ctx.choose(2, "subject");
    int a = 0, b = 0;
    {
        const auto n = ctx.choose(kOps * (kOps + 1) / 2, "calls");
        int i = 0;
        for (int x = 0; x < kOps; x += 1) {
            for (int y = x; y < kOps; y += 1, i += 1) {
                if (i == n) {
                    a = x;
                    b = y;
                }
            }
        }
    }
    if (subject == 1 && ((a >= 1 && a <= 3) || (b >= 1 && b <= 3))) {
        return; // nothing a subscriber can do
    }
    const auto first = ctx.thorough() ? ctx.choose(2, "order") : 0;
    World w(ctx, true);
    sim::Guard guard(ctx, w.config);
    auto cfg = config();
    cfg.simulcast = subject == 0 && (a == 3 || b == 3);
    w.make(cfg);
    w.pair.start();
    ctx.check(w.connect(), "C04", "not-connected", "the endpoints do not connect");
    sim::sleepUs(100000);
    auto& s = w.side[subject];
    // Everything that can arrive, arrives now
    w.side[0].pc->publishVideoFrame(w.side[0].video, 1000, vp8Frame(2600, true));
    w.side[0].pc->publishAudioFrame(w.side[0].audio, 1000, vp8Frame(90, true));
    (void)w.side[1 - subject].pc->sendDataChannelText(w.side[1 - subject].channel, "incoming");
    (void)w.side[1].pc->requestPictureLossIndicator(w.side[1].video);
    sim::sleepUs(10000);
    sim::preemptions(true);
    {
        std::thread other([&] { perform(w, s, first ? a : b, false); });
        perform(w, s, first ? b : a, false);
        other.join();
    }
    sim::point("after the calls");
    sim::preemptions(false);
    if (a == kClose || b == kClose) {
        w.destroy(subject);
    }
    sim::sleepUs(100000);
    w.finish();
}

// Closing at every moment of a connection's life, from one or two threads, and destroying it at once
void closing(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    const auto subject = ctx.choose(2, "subject");
    const auto mode = ctx.choose(4, "how");
    const auto when = ctx.choose(41, "when");
    World w(ctx, true);
    sim::Guard guard(ctx, w.config);
    w.make(config());
    auto& s = w.side[subject];
    const auto run = [&] {
        sim::preemptions(true);
        switch (mode) {
        case 0:
            s.pc->close();
            w.closed(s, "close()");
            break;
        case 1: { // two threads
            std::thread other([&] {
                s.pc->close();
                w.closed(s, "close() on another thread");
            });
            s.pc->close();
            w.closed(s, "close()");
            other.join();
            break;
        }
        case 2: // by destroying it
            (subject == 0 ? w.pair.pub : w.pair.sub)->pc.reset();
            s.pc = nullptr;
            w.closed(s, "the destructor");
            break;
        case 3: { // one thread uses it, the other closes it
            std::thread other([&] {
                s.pc->close();
                w.closed(s, "close() on another thread");
            });
            for (const auto op : { 0, 4, 6, 7 }) {
                perform(w, s, op, false);
            }
            other.join();
            break;
        }
        }
        sim::preemptions(false);
        if (s.pc) {
            w.destroy(subject);
        }
    };
    if (when == 0) {
        // Not even started
        run();
        if (w.side[1 - subject].pc) {
            w.side[1 - subject].pc->setAnswer((subject == 1 ? w.pair.pub : w.pair.sub)->answer);
        }
    } else {
        (subject == 0 ? w.pair.sub->pc : w.pair.pub->pc)
            ->setAnswer(subject == 0 ? w.pair.sub->answer : w.pair.pub->answer);
        s.pc->setAnswer(subject == 0 ? w.pair.pub->answer : w.pair.sub->answer);
        bool sentMore = false;
        if (when > 1) {
            sim::waitFor(
                [&] {
                    if (!sentMore && w.side[0].seen->state() == State::Connected &&
                        w.side[1].seen->state() == State::Connected) {
                        sentMore = true;
                        w.side[0].pc->publishVideoFrame(w.side[0].video, 1000, vp8Frame(2600, true));
                        (void)w.side[1].pc->sendDataChannelText("s", "x");
                        (void)w.side[0].pc->sendDataChannelText("p", "x");
                    }
                    return w.sent >= when - 1;
                },
                8000000);
        }
        run();
    }
    sim::sleepUs(100000);
    w.finish();
}

// Calls from within the listeners
void inListener(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    const char* where[] = { "connecting", "connected", "closed", "failed",           "open",         "text",
                            "binary",     "frame",     "stats",  "key frame request", "sender report" };
    const auto subject = ctx.choose(2, "subject");
    const auto place = where[ctx.choose(11, "listener")];
    const auto op = ctx.choose(kOps, "call");
    const auto times = ctx.choose(2, "times");
    World w(ctx, false);
    bool cut = false;
    const auto base = w.config.fate;
    w.config.fate = [&](sim::Datagram& d) {
        auto r = base(d);
        if (cut) {
            r.clear();
        }
        return r;
    };
    sim::Guard guard(ctx, w.config);
    auto cfg = config();
    cfg.pliMs = 500;
    cfg.simulcast = op == 3 && subject == 0;
    w.make(cfg);
    auto& s = w.side[subject];
    int done = 0;
    s.seen->also = [&](const char* what) {
        if (strcmp(what, place) == 0 && (times == 1 || done == 0)) {
            done += 1;
            perform(w, s, op, true);
        }
    };
    w.pair.start();
    w.connect();
    for (int i = 0; i < 13; i += 1) {
        const auto ms = 1000 * (i + 1);
        if (w.side[0].pc) {
            w.side[0].pc->publishVideoFrame(w.side[0].video, ms * 500, vp8Frame(1500, i == 0));
            (void)w.side[0].pc->sendDataChannelText("p", "x");
            (void)w.side[0].pc->sendDataChannelBinary("p", vp8Frame(100, true));
        }
        (void)w.side[1].pc->sendDataChannelText("s", "x");
        (void)w.side[1].pc->sendDataChannelBinary("s", vp8Frame(100, true));
        sim::sleepUs(500000);
    }
    if (strcmp(place, "failed") == 0) {
        cut = true;
        sim::sleepUs(12000000);
    } else if (strcmp(place, "closed") == 0) {
        w.side[subject].pc->close();
        w.closed(w.side[subject], "close()");
    }
    sim::sleepUs(200000);
    ctx.log("done %d times in %s", done, place);
    w.finish();
    s.seen->also = {};
}

// Without a logger of the application's, two connections (and the application's thread) write to the standard output
struct Nowhere : std::streambuf {
    int overflow(int c) override
    {
        return c == EOF ? 0 : c;
    }
};

struct Log : srtc::CustomLogger {
    int lines = 0;
    void log_v(int, const char*, const char* format, va_list ap) override
    {
        char buf[2048];
        vsnprintf(buf, sizeof(buf), format, ap);
        lines += 1;
    }
};

void logging(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    const auto level = ctx.choose(2, "level") == 0 ? SRTC_LOG_V : SRTC_LOG_E;
    const auto custom = ctx.choose(3, "own logger");
    static Nowhere nowhere;
    struct Restore {
        std::streambuf* before = std::cout.rdbuf(&nowhere);
        ~Restore()
        {
            std::cout.rdbuf(before);
            srtc::setLogLevel(SRTC_LOG_Z + 1);
        }
    } restore;
    srtc::setLogLevel(level);
    Log logs[2];
    World w(ctx, false);
    sim::Guard guard(ctx, w.config);
    w.make(config());
    for (int i = 0; i < custom; i += 1) {
        w.side[i].pc->setCustomLogger(&logs[i]);
    }
    w.pair.start();
    ctx.check(w.connect(), "C04", "not-connected", "the endpoints do not connect");
    for (int i = 0; i < 4; i += 1) {
        srtc::log(SRTC_LOG_E, "App", "%d", i);
        for (const auto op : { 0, 4, 6 }) {
            perform(w, w.side[0], op, false);
            perform(w, w.side[1], op, false);
        }
        sim::sleepUs(20000);
        if (i == 2) {
            srtc::setLogLevel(SRTC_LOG_V);
        }
    }
    w.finish();
    ctx.check(level != SRTC_LOG_V || custom == 0 || logs[0].lines > 0,
              "C04",
              "not-logged",
              "nothing was given to the application's logger");
}

} // namespace

namespace mc
{

void registerScenarios(bool)
{
    env::quiet();
    SSL_library_init();
    add("listener", { "C04" }, 0, 0, inListener);
    add("logging", { "C04" }, 0, 0, logging);
    add("closing", { "C04" }, 1, 2, closing);
    add("calls", { "C04" }, 1, 2, calls);
}

} // namespace mc
