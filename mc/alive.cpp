// A connection whose other side, played by the harness, shows in different ways that it is there, or does not
#include "refpeer.h"

using namespace peers;

namespace
{

struct Line {
    mc::Ctx& ctx;
    Solo& s;
    const bool publishing;
    std::shared_ptr<srtc::Track> track;
    int64_t localUs = 0;
    int n = 0;
    int64_t lastUs = 0; // when something last reached the connection
    uint16_t seq = 100;

    // What the other side can send on its own, and answers (0, 1: late)
    enum { kAnswers, kLateAnswers, kMedia, kReports, kData, kKinds };
    int kind = kAnswers;
    int64_t intervalUs = 1000000, nextUs = 0;
    bool there = true;

    Line(mc::Ctx& c, Solo& solo, bool pub)
        : ctx(c)
        , s(solo)
        , publishing(pub)
    {
        track = s.track(srtc::MediaType::Audio);
    }

    void be(int k, int64_t interval)
    {
        kind = k;
        intervalUs = interval;
        there = true;
        nextUs = env::nowUs();
        s.ref.answering = k == kAnswers || k == kLateAnswers;
        s.ref.stunDelayUs = k == kLateAnswers ? 400000 : 0;
    }

    void silent()
    {
        there = false;
        s.ref.answering = false;
        lastUs = env::nowUs() + 10000;
    }

    void one()
    {
        switch (kind) {
        case kMedia:
            s.ref.sendRtp(makeRtp(static_cast<uint8_t>(track->getPayloadId()), seq, 960u * seq, track->getSSRC(), true, mcu::pattern(3, seq, 20)));
            seq += 1;
            break;
        case kReports: {
            Bytes b;
            for (int i = 0; i < 5; i += 1) {
                put32(b, static_cast<uint32_t>(1000 + i));
            }
            if (publishing) {
                s.ref.sendRtcp(makeRtcp(0, 201, 77, {}));
            } else {
                s.ref.sendRtcp(makeRtcp(0, 200, track->getSSRC(), b));
            }
            break;
        }
        case kData:
            SSL_write(s.ref.ssl, "x", 1);
            s.ref.flush();
            break;
        default:
            break;
        }
    }

    void run(int64_t us, const std::function<bool()>& until = [] { return false; })
    {
        const auto end = env::nowUs() + us;
        int64_t nextLocal = env::nowUs();
        while (env::nowUs() < end && !until()) {
            const auto now = env::nowUs();
            if (localUs && now >= nextLocal) {
                publish(s, track, 40, n);
                n += 1;
                nextLocal += localUs;
            }
            if (there && kind >= kMedia && now >= nextUs) {
                one();
                nextUs += intervalUs;
            }
            auto step = std::min<int64_t>(end - now, 100000);
            if (localUs) {
                step = std::min(step, nextLocal - now);
            }
            if (there && kind >= kMedia) {
                step = std::min(step, nextUs - now);
            }
            s.ref.sleep(std::max<int64_t>(step, 1));
            ctx.step();
        }
    }
};

const char* const kKindNames[] = { "answers", "late answers", "media", "reports", "data" };

// It is there, whatever the way it shows it, and whatever we send
void thereScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    sim::Config config;
    config.links = RefPeer::links();
    sim::Guard guard(ctx, config);
    const auto publishing = ctx.choose(2, "direction") == 0;
    Solo s(ctx, publishing ? srtc::Direction::Publish : srtc::Direction::Subscribe, ctx.choose(2, "role") != 0);
    if (publishing) {
        publisher(s, {});
    } else {
        RefSession c(true);
        s.subscribe(c.po, c.pm, c.so, c.sm);
    }
    ctx.check(s.connect(), "C09", "not-connected", "not connected");
    Line line(ctx, s, publishing);
    static const int64_t locals[] = { 0, 20, 900, 1000, 2900, 3100 };
    if (publishing) {
        line.localUs = 1000 * locals[ctx.choose(6, "traffic")];
    }
    int kind = 0;
    const auto before = s.peer->states.size();
    for (int part = 0; part < 2; part += 1) {
        kind = ctx.choose(Line::kKinds, "kind");
        if (publishing && kind == Line::kMedia) {
            kind = Line::kAnswers;
        }
        static const int64_t intervals[] = { 1000, 2950, 4800, 20 };
        const auto interval = kind < Line::kMedia ? 0 : 1000 * intervals[ctx.choose(ctx.thorough() ? 4 : 3, "interval")];
        line.be(kind, interval);
        line.run(14000000);
        ctx.check(s.peer->states.size() == before,
                  "C09",
                  "idle-lost",
                  "the other side is there (%s, %.1f s apart; we send every %.2f s) and is reported lost: %s",
                  kKindNames[kind],
                  static_cast<double>(interval) / 1000000.0,
                  static_cast<double>(line.localUs) / 1000000.0,
                  s.peer->stateText().c_str());
        line.one();
        ctx.state(mc::mix(static_cast<uint64_t>(s.ref.requests), static_cast<uint64_t>(kind)));
    }
    ctx.outcome(mc::mix(s.ref.rtp.size() / 10, static_cast<uint64_t>(s.ref.requests) / 4));
}

// It goes silent, comes back in one of these ways, goes silent again, and so on, until it stays away
void backScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    sim::Config config;
    config.links = RefPeer::links();
    sim::Guard guard(ctx, config);
    const auto publishing = ctx.choose(2, "direction") == 0;
    Solo s(ctx, publishing ? srtc::Direction::Publish : srtc::Direction::Subscribe, ctx.thorough() ? ctx.choose(2, "role") != 0 : publishing);
    if (publishing) {
        publisher(s, {});
    } else {
        RefSession c(true);
        s.subscribe(c.po, c.pm, c.so, c.sm);
    }
    ctx.check(s.connect(), "C09", "not-connected", "not connected");
    Line line(ctx, s, publishing);
    if (publishing) {
        line.localUs = ctx.choose(2, "traffic") ? 50000 : 0;
    }
    line.be(Line::kAnswers, 0);
    line.run(700000);
    const auto state = [&] { return s.peer->state(); };
    for (int round = 0; round < (ctx.thorough() ? 3 : 2); round += 1) {
        auto changes = s.peer->states.size();
        line.silent();
        line.run(5400000, [&] { return state() != State::Connected; });
        const auto quiet = static_cast<double>(env::nowUs() - line.lastUs) / 1000.0;
        ctx.check(state() == State::Connecting && s.peer->states.size() == changes + 1,
                  "C09",
                  "not-noticed",
                  "after %.1f ms without anything from the other side: %s",
                  quiet,
                  s.peer->stateText().c_str());
        static const int64_t waits[] = { 100, 4400, 2300 };
        line.run(1000 * waits[ctx.choose(ctx.thorough() ? 3 : 2, "wait")]);
        ctx.check(state() == State::Connecting && s.peer->states.size() == changes + 1, "C09", "not-waited", "reconnecting ends early: %s", s.peer->stateText().c_str());
        auto kind = ctx.choose(Line::kKinds, "kind");
        if (publishing && kind == Line::kMedia) {
            kind = Line::kAnswers;
        }
        line.be(kind, 1000000);
        line.run(1100000, [&] { return state() == State::Connected; });
        ctx.check(state() == State::Connected && s.peer->states.size() == changes + 2,
                  "C09",
                  "not-restored",
                  "the other side is back (%s), reported is %s",
                  kKindNames[kind],
                  s.peer->stateText().c_str());
        // It stays so, what is sent arrives, and the attempts to restore it end
        const auto requests = s.ref.requests;
        const auto rtp = s.ref.rtp.size();
        const auto frames = s.peer->frames.size();
        line.be(Line::kAnswers, 0);
        line.run(200000);
        const auto late = s.ref.requests;
        if (publishing) {
            publish(s, line.track, 40, 9000);
        } else {
            line.kind = Line::kMedia;
            line.one();
            line.kind = Line::kAnswers;
        }
        line.run(2000000 + 4000000 * (ctx.thorough() ? ctx.choose(2, "stay") : round));
        ctx.check(state() == State::Connected && s.peer->states.size() == changes + 2, "C09", "idle-lost", "restored, then %s", s.peer->stateText().c_str());
        ctx.check(publishing ? s.ref.rtp.size() > rtp : s.peer->frames.size() > frames, "C09", "no-media-after", "the connection is restored but media do not arrive");
        ctx.check(s.ref.requests - late <= 4,
                  "C09",
                  "restoring-goes-on",
                  "%d connectivity checks are sent on a connection that is restored",
                  s.ref.requests - late);
        ctx.state(mc::mix(static_cast<uint64_t>(s.ref.requests - requests), static_cast<uint64_t>(kind)));
    }
    auto changes = s.peer->states.size();
    line.silent();
    line.run(5400000, [&] { return state() != State::Connected; });
    line.run(5400000, [&] { return state() != State::Connecting; });
    ctx.check(state() == State::Failed && s.peer->states.size() == changes + 2, "C09", "not-failed", "the other side is gone, reported is %s", s.peer->stateText().c_str());
    line.localUs = 0;
    line.be(ctx.choose(Line::kKinds, "kind"), 1000000);
    line.run(6500000);
    ctx.check(s.peer->states.size() == changes + 2, "C09", "after-failed", "more is reported after the failure: %s", s.peer->stateText().c_str());
    s.peer->checkLegal("C09");
    ctx.outcome(mc::mix(static_cast<uint64_t>(s.ref.requests), s.peer->states.size()));
}

} // namespace

namespace mc
{

void registerScenarios(bool)
{
    env::quiet();
    SSL_library_init();
    add("there", { "C09" }, 0, 0, thereScenario);
    add("back", { "C09" }, 0, 0, backScenario);
}

} // namespace mc
