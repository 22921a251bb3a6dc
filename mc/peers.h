// Two real endpoints (PeerConnection) over the virtual network
#pragma once

#include "sim.h"
#include "util_mc.h"

#include "srtc/data_channel_message.h"
#include "srtc/encoded_frame.h"
#include "srtc/peer_connection.h"
#include "srtc/publish_config.h"
#include "srtc/sdp_answer.h"
#include "srtc/sdp_offer.h"
#include "srtc/sender_report.h"
#include "srtc/subscribe_config.h"
#include "srtc/track.h"

#include <map>
#include <memory>
#include <sstream>
#include <unistd.h>
#include <string>
#include <vector>

namespace peers
{

using State = srtc::PeerConnection::ConnectionState;
using mcu::Bytes;

inline const char* name(State s)
{
    switch (s) {
    case State::Inactive:
        return "inactive";
    case State::Connecting:
        return "connecting";
    case State::Connected:
        return "connected";
    case State::Failed:
        return "failed";
    case State::Closed:
        return "closed";
    }
    return "?";
}

struct Received {
    std::string kind; // open, close, text, binary
    std::string label;
    Bytes data;
    int64_t atUs;
};

struct Frame {
    std::shared_ptr<srtc::Track> track;
    Bytes data;
    uint64_t seqExt;
    uint64_t rtpExt;
    bool marker;
    int64_t atUs;
};

struct Peer : public srtc::PeerConnection::DataChannelListener, std::enable_shared_from_this<Peer> {
    std::unique_ptr<srtc::PeerConnection> pc;
    std::shared_ptr<srtc::SdpOffer> offer;
    std::string offerText;
    std::shared_ptr<srtc::SdpAnswer> answer;
    const char* label = "?";
    mc::Ctx* ctx = nullptr;

    std::vector<std::pair<int64_t, State>> states;
    std::vector<Frame> frames;
    std::vector<Received> data;
    std::vector<srtc::PublishConnectionStats> pubStats;
    std::vector<srtc::SubscribeConnectionStats> subStats;
    int keyFrameRequests = 0;
    std::vector<std::pair<uint32_t, srtc::SenderReport>> senderReports;
    int64_t closedAt = -1; // when close() returned
    int callbacksAfterClose = 0;

    [[nodiscard]] State state() const
    {
        return states.empty() ? State::Inactive : states.back().second;
    }

    void callback()
    {
        if (closedAt >= 0) {
            callbacksAfterClose += 1;
        }
    }

    void listen()
    {
        pc->setConnectionStateListener([this](State s) {
            callback();
            states.emplace_back(env::nowUs(), s);
            ctx->log("%8.1f ms: %s is %s", static_cast<double>(env::nowUs()) / 1000.0, label, name(s));
        });
        pc->setSubscribeEncodedFrameListener([this](const std::shared_ptr<srtc::EncodedFrame>& f) {
            callback();
            frames.push_back(
                { f->track, mcu::toBytes(f->data), f->seq_ext, f->rtp_timestamp_ext, f->marker, env::nowUs() });
            ctx->log("%8.1f ms: %s frame, %zu bytes",
                     static_cast<double>(env::nowUs()) / 1000.0,
                     label,
                     f->data.size());
        });
        pc->setPublishConnectionStatsListener([this](const srtc::PublishConnectionStats& s) {
            callback();
            pubStats.push_back(s);
        });
        pc->setSubscribeConnectionStatsListener([this](const srtc::SubscribeConnectionStats& s) {
            callback();
            subStats.push_back(s);
        });
        pc->setPublishKeyFrameRequestedListener([this] {
            callback();
            keyFrameRequests += 1;
        });
        pc->setSubscribeSenderReportsListener(
            [this](const std::shared_ptr<srtc::Track>& track, const srtc::SenderReport& sr) {
                callback();
                senderReports.emplace_back(track->getSSRC(), sr);
            });
        pc->setDataChannelListener(shared_from_this());
    }

    void onDataChannelOpened(const std::string& l) override
    {
        add("open", l, {});
    }
    void onDataChannelClosed(const std::string& l) override
    {
        add("close", l, {});
    }
    void onDataChannelReceivedText(const std::string& l, const std::string& d) override
    {
        add("text", l, Bytes(d.begin(), d.end()));
    }
    void onDataChannelReceivedBinary(const std::string& l, const srtc::ByteBuffer& d) override
    {
        add("binary", l, mcu::toBytes(d));
    }
    void add(const char* kind, const std::string& l, const Bytes& d)
    {
        callback();
        data.push_back({ kind, l, d, env::nowUs() });
        ctx->log("%8.1f ms: %s data channel %s %s, %zu bytes",
                 static_cast<double>(env::nowUs()) / 1000.0,
                 label,
                 l.c_str(),
                 kind,
                 d.size());
    }

    void close()
    {
        pc->setDataChannelListener(nullptr);
        pc->close();
        closedAt = env::nowUs();
    }

    // connecting first, then connected and connecting in turn, then possibly failed or closed, and nothing more
    void checkLegal(const char* prop) const
    {
        for (size_t i = 0; i < states.size(); i += 1) {
            const auto s = states[i].second;
            const auto p = i == 0 ? State::Inactive : states[i - 1].second;
            bool ok = false;
            switch (p) {
            case State::Inactive:
                ok = s == State::Connecting || s == State::Failed || s == State::Closed;
                break;
            case State::Connecting:
                ok = s == State::Connected || s == State::Failed || s == State::Closed;
                break;
            case State::Connected:
                ok = s == State::Connecting || s == State::Failed || s == State::Closed;
                break;
            case State::Failed:
                ok = s == State::Closed;
                break;
            case State::Closed:
                ok = false;
                break;
            }
            ctx->check(ok, prop, "illegal-state", "%s: state %s reported after %s", label, name(s), name(p));
        }
    }

    [[nodiscard]] std::string stateText() const
    {
        std::string r;
        for (const auto& s : states) {
            r += std::string(r.empty() ? "" : ",") + name(s.second);
        }
        return r;
    }
};

// ----- Session descriptions

inline std::vector<std::string> lines(const std::string& text)
{
    std::vector<std::string> r;
    std::istringstream is(text);
    std::string line;
    while (std::getline(is, line)) {
        r.push_back(line);
    }
    return r;
}

inline bool startsWith(const std::string& s, const char* prefix)
{
    return s.rfind(prefix, 0) == 0;
}

inline std::string attribute(const std::string& text, const char* key)
{
    const auto prefix = std::string("a=") + key + ":";
    for (const auto& l : lines(text)) {
        if (startsWith(l, prefix.c_str())) {
            return l.substr(prefix.size());
        }
    }
    return "";
}

struct AnswerOptions {
    bool active = false;              // the other side is the DTLS client
    std::vector<std::string> hosts;   // "ip port"
    std::string fingerprint;          // "sha-256 ..." if not the peer's
    bool keepSsrc = false;            // for a subscriber: the publisher's identifiers
    const char* dir = "recvonly";
    bool rtx = true;
};

// What the other side would answer: the session `base` with the transport of `peer`
inline std::string makeAnswer(const std::string& base, const std::string& peer, const AnswerOptions& o)
{
    std::string r;
    bool first = true;
    for (auto l : lines(base)) {
        if (startsWith(l, "a=fingerprint:")) {
            l = "a=fingerprint:" + (o.fingerprint.empty() ? attribute(peer, "fingerprint") : o.fingerprint);
        } else if (startsWith(l, "a=ice-ufrag:")) {
            l = "a=ice-ufrag:" + attribute(peer, "ice-ufrag");
        } else if (startsWith(l, "a=ice-pwd:")) {
            l = "a=ice-pwd:" + attribute(peer, "ice-pwd");
        } else if (startsWith(l, "a=setup:")) {
            l = o.active ? "a=setup:active" : "a=setup:passive";
        } else if (l == "a=sendonly" || l == "a=recvonly") {
            l = std::string("a=") + o.dir;
        } else if ((startsWith(l, "a=ssrc:") || startsWith(l, "a=ssrc-group:")) && !o.keepSsrc) {
            continue;
        } else if (startsWith(l, "a=rid:") && !o.keepSsrc) {
            l = l.substr(0, l.find(" send")) + " recv";
        } else if (startsWith(l, "a=simulcast:send")) {
            l = "a=simulcast:recv" + l.substr(16);
        } else if (!o.rtx && (l.find(" rtx/90000") != std::string::npos || l.find(" apt=") != std::string::npos ||
                              startsWith(l, "a=ssrc-group:"))) {
            continue;
        }
        r += l + "\r\n";
        if (first && startsWith(l, "m=")) {
            first = false;
            for (const auto& h : o.hosts) {
                r += "a=candidate:1 1 udp 2130706431 " + h + " typ host\r\n";
            }
        }
    }
    return r;
}

struct PairConfig {
    bool video = true;
    bool audio = true;
    std::vector<std::string> pubChannels;
    std::vector<std::string> subChannels;
    bool rtx = true;
    bool bwe = false;
    bool subIsServer = false; // the publisher is the DTLS client
    srtc::Codec videoCodec = srtc::Codec::VP8;
    uint16_t jitterMs = 0;
    uint16_t nackDelayMs = 0;
    uint16_t pliMs = 0;
    std::string wrongFingerprintForPub;
    std::string wrongFingerprintForSub;
    std::vector<std::string> extraHostsForPub; // candidates tried before the good one
    std::vector<std::string> extraHostsForSub;
    bool simulcast = false; // the publisher's video has layers
};

struct Pair {
    mc::Ctx& ctx;
    std::shared_ptr<Peer> pub, sub;
    sim::Addr pubAddr = sim::addr("10.0.0.1", 5001);
    sim::Addr subAddr = sim::addr("10.0.0.2", 5002);
    std::shared_ptr<srtc::Track> videoPub, audioPub, videoSub, audioSub;

    explicit Pair(mc::Ctx& c)
        : ctx(c)
    {
    }

    static std::vector<std::pair<sim::Addr, sim::Addr>> links()
    {
        const auto a = sim::addr("10.0.0.1", 5001);
        const auto b = sim::addr("10.0.0.2", 5002);
        return { { a, b }, { b, a } };
    }

    void offers(const PairConfig& cfg)
    {
        pub = std::make_shared<Peer>();
        pub->ctx = &ctx;
        pub->label = "pub";
        pub->pc = std::make_unique<srtc::PeerConnection>(srtc::Direction::Publish);
        sub = std::make_shared<Peer>();
        sub->ctx = &ctx;
        sub->label = "sub";
        sub->pc = std::make_unique<srtc::PeerConnection>(srtc::Direction::Subscribe);
        pub->listen();
        sub->listen();

        srtc::PubOfferConfig po;
        po.cname = "pub";
        po.enable_rtx = cfg.rtx;
        po.enable_bwe = cfg.bwe;
        po.data_channel_config.data_channels = cfg.pubChannels;
        srtc::PubMediaConfig pm;
        if (cfg.video) {
            pm.media_list.push_back({ "v", srtc::MediaType::Video, { { cfg.videoCodec, 0x42e01f } }, {} });
            if (cfg.simulcast) {
                auto& list = pm.media_list.back().layer_list;
                list.push_back({ "l", 320, 180, 15, 300 });
                list.push_back({ "h", 640, 360, 15, 900 });
            }
        }
        if (cfg.audio) {
            pm.media_list.push_back({ "a", srtc::MediaType::Audio, { { srtc::Codec::Opus } }, {} });
        }
        srtc::SubOfferConfig so;
        so.cname = "sub";
        so.pli_interval_millis = cfg.pliMs;
        so.jitter_buffer_length_millis = cfg.jitterMs;
        so.jitter_buffer_nack_delay_millis = cfg.nackDelayMs;
        so.data_channel_config.data_channels = cfg.subChannels;
        srtc::SubMediaConfig sm;
        if (cfg.video) {
            sm.media_list.push_back({ "v", srtc::MediaType::Video, { { cfg.videoCodec, 0x42e01f } } });
        }
        if (cfg.audio) {
            sm.media_list.push_back({ "a", srtc::MediaType::Audio, { { srtc::Codec::Opus } } });
        }
        pub->offer = pub->pc->createPublishOffer(po, pm).first;
        sub->offer = sub->pc->createSubscribeOffer(so, sm).first;
        pub->offerText = pub->offer->generate().first;
        sub->offerText = sub->offer->generate().first;
        pub->pc->setOffer(pub->offer);
        sub->pc->setOffer(sub->offer);
    }

    // False if an answer was refused and that is acceptable
    bool answers(const PairConfig& cfg, bool mayRefuse = false)
    {
        AnswerOptions forPub;
        forPub.active = !cfg.subIsServer;
        forPub.hosts = cfg.extraHostsForPub;
        forPub.hosts.emplace_back("10.0.0.2 5002");
        forPub.fingerprint = cfg.wrongFingerprintForPub;
        forPub.rtx = cfg.rtx;
        AnswerOptions forSub;
        forSub.active = cfg.subIsServer;
        forSub.hosts = cfg.extraHostsForSub;
        forSub.hosts.emplace_back("10.0.0.1 5001");
        forSub.fingerprint = cfg.wrongFingerprintForSub;
        forSub.keepSsrc = true;
        forSub.dir = "sendonly";
        forSub.rtx = cfg.rtx;
        const auto textForPub = makeAnswer(pub->offerText, sub->offerText, forPub);
        const auto textForSub = makeAnswer(pub->offerText, pub->offerText, forSub);
        const auto a1 = pub->pc->parsePublishAnswer(pub->offer, textForPub, nullptr);
        const auto a2 = sub->pc->parseSubscribeAnswer(sub->offer, textForSub, nullptr);
        if (a1.second.isError() || a2.second.isError()) {
            if (mayRefuse) {
                return false;
            }
            fprintf(stderr,
                    "harness: cannot make the answers: %s / %s\n",
                    a1.second.message.c_str(),
                    a2.second.message.c_str());
            _exit(70);
        }
        pub->answer = a1.first;
        sub->answer = a2.first;
        return true;
    }

    static std::shared_ptr<srtc::Track> find(const std::shared_ptr<srtc::SdpAnswer>& answer, srtc::MediaType type)
    {
        for (const auto& t : answer->getTrackList()) {
            if (t->getMediaType() == type) {
                return t;
            }
        }
        return nullptr;
    }

    void tracks()
    {
        videoPub = find(pub->answer, srtc::MediaType::Video);
        audioPub = find(pub->answer, srtc::MediaType::Audio);
        videoSub = find(sub->answer, srtc::MediaType::Video);
        audioSub = find(sub->answer, srtc::MediaType::Audio);
    }

    void make(const PairConfig& cfg)
    {
        offers(cfg);
        answers(cfg);
        tracks();
    }

    void start()
    {
        sub->pc->setAnswer(sub->answer);
        pub->pc->setAnswer(pub->answer);
    }

    bool connect(int64_t timeoutUs = 10000000)
    {
        return sim::waitFor(
            [this] { return pub->state() == State::Connected && sub->state() == State::Connected; }, timeoutUs);
    }

    // Both have come to an end
    [[nodiscard]] static bool ended(const Peer& p)
    {
        return p.state() == State::Failed || p.state() == State::Closed;
    }

    void close()
    {
        if (pub) {
            pub->close();
        }
        if (sub) {
            sub->close();
        }
    }
};

} // namespace peers
