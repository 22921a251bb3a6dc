// Sending: the real SendPacer and SendRtpHistory, over the real SRTP connection, with the socket's output recorded.
#include "util_mc.h"

#include "srtc/rtp_packet.h"
#include "srtc/sdp_offer.h"
#include "srtc/send_pacer.h"
#include "srtc/send_rtp_history.h"
#include "srtc/socket.h"
#include "srtc/srtp_connection.h"
#include "srtc/srtp_crypto.h"
#include "srtc/track_stats.h"

#include <openssl/srtp.h>

#include <deque>
#include <map>
#include <set>

#include <sys/socket.h>

using namespace srtc;
using mc::Ctx;
using mcu::Bytes;

namespace
{

std::vector<Bytes> gWire;

Bytes keyOf(int n, size_t size)
{
    return mcu::pattern(77, static_cast<uint64_t>(n), size);
}

CryptoBytes cbytes(const Bytes& b)
{
    CryptoBytes r;
    r.assign(b.data(), b.size());
    return r;
}

std::shared_ptr<SrtpConnection> connection(bool swap)
{
    const auto sk = keyOf(swap ? 3 : 1, 16), ss = keyOf(swap ? 4 : 2, 12), rk = keyOf(swap ? 1 : 3, 16),
               rs = keyOf(swap ? 2 : 4, 12);
    const auto [crypto, error] =
        SrtpCrypto::create(SRTP_AEAD_AES_128_GCM, cbytes(sk), cbytes(ss), cbytes(rk), cbytes(rs));
    return std::make_shared<SrtpConnection>(crypto, SRTP_AEAD_AES_128_GCM);
}

struct Given {
    int track;
    uint16_t seq;
    int64_t given;
    int64_t due;
    int64_t turn;
    std::shared_ptr<RtpPacket> packet;
    Bytes payload;
    bool sent = false;
};

class Sender
{
public:
    explicit Sender(Ctx& ctx, uint16_t start)
        : mCtx(ctx)
    {
        env::reset(ctx.seed());
        gWire.clear();
        anyaddr addr = {};
        addr.sin_ipv4.sin_family = AF_INET;
        addr.sin_ipv4.sin_port = htons(9);
        addr.sin_ipv4.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        mSocket = std::make_shared<Socket>(addr);
        mHistory = std::make_shared<SendRtpHistory>();
        mReceive = connection(true);
        mPacer = std::make_unique<SendPacer>(
            SdpOffer::Config{}, connection(false), mSocket, mHistory, nullptr, [this] { mNotified += 1; });
        for (int i = 0; i < 3; i += 1) {
            mcu::TrackSpec s;
            s.ssrc = 1000u + static_cast<uint32_t>(i);
            s.nack = i != 2;
            if (i == 1) {
                s.rtxSsrc = 2000;
                s.rtxPt = 97;
                s.nack = false;
            }
            mTrack[i] = mcu::makeTrack(s);
            mNextSeq[i] = static_cast<uint16_t>(start + i);
        }
    }

    // As the connection does: what is queued for the track first, then the new frame
    void frame(int track, int n, unsigned spread)
    {
        std::vector<std::shared_ptr<RtpPacket>> list;
        std::vector<size_t> index;
        for (int i = 0; i < n; i += 1) {
            const auto seq = mNextSeq[track]++;
            const uint32_t rollover = seq < 40000 && mWrapped[track] ? 1 : 0;
            if (seq == 65535) {
                mWrapped[track] = true;
            }
            const auto payload = mcu::pattern(5, (static_cast<uint64_t>(track) << 20) | seq, 20 + (seq % 7));
            const auto packet = std::make_shared<RtpPacket>(mTrack[track],
                                                            i + 1 == n,
                                                            rollover,
                                                            seq,
                                                            static_cast<uint32_t>(mFrames[track] * 3000),
                                                            static_cast<uint8_t>(0),
                                                            mcu::toBuf(payload));
            list.push_back(packet);
            Given g;
            g.track = track;
            g.seq = seq;
            g.given = env::nowUs();
            g.turn = env::nowUs() + int64_t(spread) * 1000 * i / n - i; // in whole microseconds each
            g.due = env::nowUs() + (n == 1 ? 0 : int64_t(spread) * 1000);
            g.packet = packet;
            g.payload = payload;
            mGiven.push_back(g);
        }
        mFrames[track] += 1;
        mCtx.log("%.3f ms: frame of %d packets from %u on track %d, spread %u ms",
                 static_cast<double>(env::nowUs()) / 1000.0,
                 n,
                 list.front()->getSequence(),
                 track,
                 spread);
        mCtx.step();
        mFlushing = track;
        mPacer->flush(mTrack[track]);
        observe();
        mFlushing = -1;
        // Nothing of earlier frames may be left
        for (const auto& g : mGiven) {
            if (g.track == track && !g.sent && g.packet->getTimestamp() != list.front()->getTimestamp()) {
                mCtx.check(false, "M10", "flush", "packet %u of track %d is still queued after the flush", g.seq, track);
            }
        }
        if (n == 1) {
            mPacer->sendNow(list.front());
        } else {
            mPacer->sendPaced(list, spread);
        }
        observe();
    }

    void run()
    {
        mPacer->run();
        mCtx.step();
        observe();
        for (const auto& g : mGiven) {
            mCtx.check(g.sent || g.due > env::nowUs(),
                       "M10",
                       "late",
                       "packet %u of track %d was given %.3f ms ago, was due %.3f ms ago, and is not sent",
                       g.seq,
                       g.track,
                       static_cast<double>(env::nowUs() - g.given) / 1000.0,
                       static_cast<double>(env::nowUs() - g.due) / 1000.0);
        }
    }

    // How long the network loop would sleep
    int64_t sleep()
    {
        const auto ms = std::max(0, std::min(100, mPacer->getTimeoutMillis(100)));
        int64_t first = INT64_MAX;
        for (const auto& g : mGiven) {
            if (!g.sent) {
                first = std::min(first, g.due);
            }
        }
        if (first != INT64_MAX) {
            mCtx.check(env::nowUs() + int64_t(ms) * 1000 <= std::max(first, env::nowUs()) + 1000,
                       "M10",
                       "timeout",
                       "the loop would sleep %lld ms, and a packet is due in %.3f ms",
                       static_cast<long long>(ms),
                       static_cast<double>(first - env::nowUs()) / 1000.0);
        }
        return ms * 1000;
    }

    void finish()
    {
        env::advanceMs(150);
        run();
        for (int i = 0; i < 3; i += 1) {
            const auto stats = mTrack[i]->getStats();
            mCtx.check(stats->getSentPackets() == mSentPackets[i],
                       "M16",
                       "sent-packets",
                       "track %d: %zu packets were sent, the count says %zu",
                       i,
                       mSentPackets[i],
                       stats->getSentPackets());
            mCtx.check(stats->getSentBytes() == mSentBytes[i],
                       "M16",
                       "sent-bytes",
                       "track %d: %zu bytes were sent, the count says %zu",
                       i,
                       mSentBytes[i],
                       stats->getSentBytes());
            mCtx.check(stats->getSentFrames() == mFrames[i],
                       "M16",
                       "sent-frames",
                       "track %d: %zu frames were sent, the count says %zu",
                       i,
                       mFrames[i],
                       stats->getSentFrames());
        }
        checkHistory();
        mCtx.outcome(mHash);
    }

    void checkHistory()
    {
        for (int i = 0; i < 3; i += 1) {
            const auto ssrc = mTrack[i]->getSSRC();
            std::vector<const Given*> order;
            for (const auto& g : mGiven) {
                if (g.track == i && g.sent) {
                    order.push_back(&g);
                }
            }
            std::set<uint16_t> sent;
            for (size_t k = 0; k < order.size(); k += 1) {
                const auto& g = *order[k];
                sent.insert(g.seq);
                if (i == 2 || order.size() - k > 512) {
                    continue;
                }
                const auto found = mHistory->find(ssrc, g.seq);
                mCtx.check(found != nullptr,
                           "M09",
                           "forgotten",
                           "packet %u of track %d is number %zu from the last and is not in the history",
                           g.seq,
                           i,
                           order.size() - k);
                if (found) {
                    mCtx.check(found->getSequence() == g.seq && found->getSSRC() == ssrc &&
                                   mcu::toBytes(found->getPayload()) == g.payload &&
                                   found->getTimestamp() == g.packet->getTimestamp(),
                               "M09",
                               "other-packet",
                               "asked for packet %u of track %d, got packet %u",
                               g.seq,
                               i,
                               found->getSequence());
                }
            }
            for (uint32_t seq = 0; seq < 65536; seq += mFull ? 1 : 331) {
                const auto found = mHistory->find(ssrc, static_cast<uint16_t>(seq));
                if (found) {
                    mCtx.check(found->getSequence() == seq && sent.count(static_cast<uint16_t>(seq)),
                               "M09",
                               "never-sent",
                               "track %d: packet %u was never sent and packet %u is found",
                               i,
                               seq,
                               found->getSequence());
                }
            }
        }
        mCtx.check(mHistory->find(999, 1) == nullptr, "M09", "never-sent", "a packet of an unknown stream is found");
    }

    bool mFull = false;

private:
    void observe()
    {
        for (const auto& wire : gWire) {
            ByteBuffer plain;
            const bool ok = mReceive->unprotectReceiveMedia(mcu::toBuf(wire), plain);
            mCtx.check(ok, "M10", "sent-twice", "a packet is sent twice, or is not protected");
            if (!ok) {
                continue;
            }
            const auto b = mcu::toBytes(plain);
            const uint32_t ssrc = (uint32_t(b[8]) << 24) | (uint32_t(b[9]) << 16) | (uint32_t(b[10]) << 8) | b[11];
            const auto seq = static_cast<uint16_t>((b[2] << 8) | b[3]);
            const int track = static_cast<int>(ssrc - 1000);
            mHash = mc::mix(mHash, mc::mix(ssrc, mc::mix(seq, static_cast<uint64_t>(env::nowUs()))));
            mCtx.state(mHash);
            mCtx.log("%.3f ms: sent packet %u on track %d", static_cast<double>(env::nowUs()) / 1000.0, seq, track);
            Given* next = nullptr;
            for (auto& g : mGiven) {
                if (g.track == track && !g.sent) {
                    next = &g;
                    break;
                }
            }
            mCtx.check(next && next->seq == seq,
                       "M10",
                       "order",
                       "packet %u of track %d is sent, and the next one given is %u",
                       seq,
                       track,
                       next ? next->seq : 0u);
            if (!next || next->seq != seq) {
                mCtx.abandon();
            }
            mCtx.check(Bytes(b.begin() + 12, b.end()) == next->payload,
                       "M10",
                       "content",
                       "packet %u of track %d is sent with other content",
                       seq,
                       track);
            mCtx.check(track == mFlushing || env::nowUs() >= next->turn - 1000,
                       "M10",
                       "early",
                       "packet %u of track %d is sent %.3f ms before its turn, with no later frame behind it",
                       seq,
                       track,
                       static_cast<double>(next->turn - env::nowUs()) / 1000.0);
            next->sent = true;
            mSentPackets[track] += 1;
            mSentBytes[track] += wire.size();
        }
        gWire.clear();
    }

    Ctx& mCtx;
    std::shared_ptr<Socket> mSocket;
    std::shared_ptr<SendRtpHistory> mHistory;
    std::shared_ptr<SrtpConnection> mReceive;
    std::unique_ptr<SendPacer> mPacer;
    std::shared_ptr<Track> mTrack[3];
    uint16_t mNextSeq[3] = {};
    bool mWrapped[3] = {};
    size_t mFrames[3] = {};
    size_t mSentPackets[3] = {};
    size_t mSentBytes[3] = {};
    std::deque<Given> mGiven;
    size_t mNotified = 0;
    int mFlushing = -1;
    uint64_t mHash = 1;
};

struct Op {
    int track; // -1: time passes
    int n;
    unsigned spread;
    int64_t us;
    bool run;
};

const Op kOps[] = {
    { -1, 0, 0, -1, true }, // as long as the loop sleeps
    { 0, 1, 15, 0, true },
    { 0, 2, 15, 0, true },
    { 0, 3, 15, 0, true },
    { 0, 7, 15, 0, true },
    { 0, 3, 0, 0, true },
    { 0, 3, 1, 0, true },
    { 0, 4, 66, 0, true },
    { 1, 1, 15, 0, true },
    { 1, 3, 15, 0, true },
    { 1, 7, 66, 0, true },
    { 2, 5, 15, 0, true },
    { -1, 0, 0, 999, true },
    { -1, 0, 0, 5000, true },
    { -1, 0, 0, 16000, true },
    { -1, 0, 0, 30000, false },
};
constexpr int kOpCount = sizeof(kOps) / sizeof(kOps[0]);

void apply(Sender& s, const Op& op)
{
    if (op.track >= 0) {
        s.frame(op.track, op.n, op.spread);
        return;
    }
    env::advanceUs(op.us < 0 ? std::max<int64_t>(s.sleep(), 100) : op.us);
    if (op.run) {
        s.run();
    }
}

void runPacing(Ctx& ctx)
{
    Sender s(ctx, 65530);
    const int n = 10;
    apply(s, kOps[1 + ctx.choose(11, "first frame")]);
    for (int i = 0; i < n; i += 1) {
        apply(s, kOps[ctx.deviate(kOpCount, "operation")]);
    }
    s.finish();
}

void runAllOps(Ctx& ctx)
{
    Sender s(ctx, 100);
    const int n = ctx.thorough() ? 5 : 4;
    for (int i = 0; i < n; i += 1) {
        apply(s, kOps[ctx.choose(kOpCount, "operation")]);
    }
    s.finish();
}

// Frames of so many packets that several have their turn at the same time
void runLarge(Ctx& ctx)
{
    static const int counts[] = { 999, 1000, 1001, 1500, 2001 };
    Sender s(ctx, static_cast<uint16_t>(ctx.choose(2, "start") ? 65000 : 0));
    const auto track = ctx.choose(2, "track");
    s.frame(track, counts[ctx.choose(5, "packets")], 1 + ctx.choose(2, "spread"));
    const auto n = ctx.choose(3, "runs");
    for (int i = 0; i < n; i += 1) {
        apply(s, kOps[ctx.choose(2, "wait") ? 12 : 0]);
    }
    if (ctx.choose(2, "other")) {
        s.frame(1 - track, 3, 1);
    }
    if (ctx.choose(2, "next")) {
        s.frame(track, 2, 1);
    }
    s.finish();
}

void runHistory(Ctx& ctx)
{
    const int counts[] = { 1, 100, 511, 512, 513, 600, 1025, 1600 };
    const uint16_t starts[] = { 0, 1, 64600, 65023, 65024, 65535 };
    const int count = counts[ctx.choose(8, "packets")];
    const int other = ctx.choose(4, "others in between");
    const auto start = starts[ctx.choose(6, "first number")];
    const int n = 1 + 6 * ctx.choose(2, "frame size");
    Sender s(ctx, start);
    s.mFull = true;
    for (int i = 0; i < count; i += n) {
        s.frame(0, n, 0);
        if (other == 1 || (other == 2 && i % 5 == 0)) {
            s.frame(1, 1, 0);
        } else if (other == 3) {
            s.frame(1, 3, 0);
            s.frame(2, 2, 0);
        }
    }
    s.finish();
}

} // namespace

extern "C" ssize_t sendto(int, const void* buf, size_t len, int, const struct sockaddr*, socklen_t)
{
    const auto p = static_cast<const uint8_t*>(buf);
    gWire.emplace_back(p, p + len);
    return static_cast<ssize_t>(len);
}

extern "C" ssize_t send(int fd, const void* buf, size_t len, int flags)
{
    return sendto(fd, buf, len, flags, nullptr, 0);
}

namespace mc
{

void registerScenarios(bool)
{
    env::quiet();
    add("pacing", { "M10", "M16" }, 2, 3, runPacing);
    add("operations", { "M10", "M16" }, 0, 0, runAllOps);
    add("large", { "M10", "M16" }, 0, 0, runLarge);
    add("history", { "M09" }, 0, 0, runHistory);
}

} // namespace mc
