// Session descriptions: the offers made, and what becomes of answers to them
#include "peers.h"

#include "srtc/depacketizer.h"
#include "srtc/media.h"
#include "srtc/packetizer.h"
#include "srtc/rtcp_packet_source.h"
#include "srtc/track_selector.h"
#include "srtc/x509_certificate.h"
#include "srtc/x509_hash.h"

#include <arpa/inet.h>
#include <openssl/ssl.h>

#include <algorithm>
#include <set>

using namespace peers;

namespace
{

const char* P = "C08";

// ----- An independent reading of session descriptions

struct Section {
    std::string type, mid, proto, port;
    std::vector<int> pts;
    std::map<int, std::string> rtpmap, fmtp;
    std::map<int, std::set<std::string>> fb;
    std::map<int, std::string> extmap;
    std::vector<uint32_t> ssrcs; // each once
    std::vector<std::pair<uint32_t, uint32_t>> fids;
    std::vector<std::string> rids, simulcast;
    std::vector<std::string> all; // without m=
    std::string setup, fingerprint, ufrag, pwd, dir;
    std::map<std::string, std::string> other;
};

std::vector<std::string> split(const std::string& s, char by)
{
    std::vector<std::string> r;
    std::istringstream is(s);
    std::string t;
    while (std::getline(is, t, by)) {
        r.push_back(t);
    }
    return r;
}

std::vector<Section> sections(const std::string& text)
{
    std::vector<Section> r;
    for (const auto& l : lines(text)) {
        if (startsWith(l, "m=")) {
            r.emplace_back();
            const auto w = split(l.substr(2), ' ');
            r.back().type = w[0];
            r.back().port = w[1];
            r.back().proto = w[2];
            for (size_t i = 3; i < w.size(); i += 1) {
                r.back().pts.push_back(atoi(w[i].c_str()));
            }
            continue;
        }
        if (r.empty()) {
            continue;
        }
        auto& s = r.back();
        s.all.push_back(l);
        if (!startsWith(l, "a=")) {
            continue;
        }
        const auto colon = l.find(':');
        const auto key = l.substr(2, colon == std::string::npos ? std::string::npos : colon - 2);
        const auto value = colon == std::string::npos ? "" : l.substr(colon + 1);
        const auto space = value.find(' ');
        const auto first = value.substr(0, space);
        const auto rest = space == std::string::npos ? "" : value.substr(space + 1);
        if (key == "mid") {
            s.mid = value;
        } else if (key == "rtpmap") {
            s.rtpmap[atoi(first.c_str())] = rest;
        } else if (key == "fmtp") {
            s.fmtp[atoi(first.c_str())] = rest;
        } else if (key == "rtcp-fb") {
            s.fb[atoi(first.c_str())].insert(rest);
        } else if (key == "extmap") {
            s.extmap[atoi(first.c_str())] = rest;
        } else if (key == "ssrc") {
            const auto n = static_cast<uint32_t>(strtoul(first.c_str(), nullptr, 10));
            if (std::find(s.ssrcs.begin(), s.ssrcs.end(), n) == s.ssrcs.end()) {
                s.ssrcs.push_back(n);
            }
        } else if (key == "ssrc-group") {
            const auto w = split(rest, ' ');
            s.fids.emplace_back(strtoul(w[0].c_str(), nullptr, 10), strtoul(w[1].c_str(), nullptr, 10));
        } else if (key == "rid") {
            s.rids.push_back(first);
        } else if (key == "simulcast") {
            s.simulcast = split(rest, ';');
        } else if (key == "setup") {
            s.setup = value;
        } else if (key == "fingerprint") {
            s.fingerprint = value;
        } else if (key == "ice-ufrag") {
            s.ufrag = value;
        } else if (key == "ice-pwd") {
            s.pwd = value;
        } else if (value.empty() && (key == "sendonly" || key == "recvonly")) {
            s.dir = key;
        } else {
            s.other[key] = value;
        }
    }
    return r;
}

const char* mapOf(srtc::Codec c)
{
    switch (c) {
    case srtc::Codec::VP8:
        return "VP8/90000";
    case srtc::Codec::VP9:
        return "VP9/90000";
    case srtc::Codec::H264:
        return "H264/90000";
    case srtc::Codec::H265:
        return "H265/90000";
    case srtc::Codec::AV1:
        return "AV1/90000";
    case srtc::Codec::Opus:
        return "opus/48000/2";
    default:
        return "?";
    }
}

// ----- Configurations

struct Item {
    std::string id;
    srtc::MediaType type;
    std::vector<srtc::PubCodec> codecs;
    std::vector<srtc::SimulcastLayer> layers;
};

struct Offer {
    bool publish = true;
    bool rtx = true, bwe = false, abs = false, rid = false;
    std::vector<std::string> channels;
    std::vector<Item> items;

    std::unique_ptr<srtc::PeerConnection> pc;
    std::shared_ptr<srtc::SdpOffer> offer;
    bool failed = false;
    std::string why, text;

    void make()
    {
        pc = std::make_unique<srtc::PeerConnection>(publish ? srtc::Direction::Publish : srtc::Direction::Subscribe);
        if (publish) {
            srtc::PubOfferConfig c;
            c.cname = "someone";
            c.enable_rtx = rtx;
            c.enable_bwe = bwe;
            c.enable_abs_capture_time = abs;
            c.enable_rfc8851 = rid;
            c.data_channel_config.data_channels = channels;
            srtc::PubMediaConfig m;
            for (const auto& i : items) {
                m.media_list.push_back({ i.id, i.type, i.codecs, i.layers });
            }
            take(pc->createPublishOffer(c, m));
        } else {
            srtc::SubOfferConfig c;
            c.cname = "someone";
            c.enable_abs_capture_time = abs;
            c.data_channel_config.data_channels = channels;
            srtc::SubMediaConfig m;
            for (const auto& i : items) {
                m.media_list.push_back({ i.id, i.type, {} });
                for (const auto& k : i.codecs) {
                    m.media_list.back().codec_list.push_back({ k.codec, k.profile_level_id, k.minptime, k.stereo });
                }
            }
            take(pc->createSubscribeOffer(c, m));
        }
        if (!failed) {
            const auto r = offer->generate();
            text = r.first;
            failed = r.second.isError();
            why = r.second.message;
        }
    }

    void take(const std::pair<std::shared_ptr<srtc::SdpOffer>, srtc::Error>& r)
    {
        offer = r.first;
        failed = r.second.isError();
        why = r.second.message;
    }

    // Retransmission is always offered for what is received
    [[nodiscard]] bool withRtx() const
    {
        return !publish || rtx;
    }
};

srtc::PubCodec codec(srtc::Codec c, uint32_t profile = 0, uint32_t minptime = 10, bool stereo = false)
{
    srtc::PubCodec r;
    r.codec = c;
    r.profile_level_id = profile;
    r.minptime = minptime;
    r.stereo = stereo;
    return r;
}

const std::vector<srtc::SimulcastLayer> kLayers = { { "lo", 320, 180, 15, 300 }, { "mid", 640, 360, 30, 900 }, { "hi", 1280, 720, 30, 2500 } };

Item item(int kind, int n)
{
    const auto V = srtc::MediaType::Video;
    const auto A = srtc::MediaType::Audio;
    const auto id = std::to_string(n);
    switch (kind) {
    case 0:
        return { "v" + id, V, { codec(srtc::Codec::VP8) }, {} };
    case 1:
        return { "a" + id, A, { codec(srtc::Codec::Opus, 0, 20, true) }, {} };
    case 2:
        return { "all" + id,
                 V,
                 { codec(srtc::Codec::H264, 0x42e01f), codec(srtc::Codec::VP9), codec(srtc::Codec::H264, 0x640c1f), codec(srtc::Codec::H265), codec(srtc::Codec::AV1), codec(srtc::Codec::VP8) },
                 {} };
    case 3:
        return { "two" + id, A, { codec(srtc::Codec::Opus, 0, 10, false), codec(srtc::Codec::Opus, 0, 20, true) }, {} };
    case 4:
        return { "sim" + id, V, { codec(srtc::Codec::H264, 0x42e01f), codec(srtc::Codec::VP8) }, { kLayers[0], kLayers[1] } };
    case 5:
        return { "sim" + id, V, { codec(srtc::Codec::VP8) }, kLayers };
    case 6: { // as many as there are payload types without retransmission
        Item r{ "many" + id, V, {}, {} };
        for (int i = 0; i < 32; i += 1) {
            r.codecs.push_back(codec(srtc::Codec::H264, 0x420000u + static_cast<uint32_t>(i)));
        }
        return r;
    }
    case 7: {
        Item r{ "half" + id, V, {}, {} };
        for (int i = 0; i < 16; i += 1) {
            r.codecs.push_back(codec(srtc::Codec::H264, 0x420000u + static_cast<uint32_t>(i)));
        }
        return r;
    }
    // Not possible
    case 8:
        return { "none" + id, V, {}, {} };
    case 9:
        return { "wrong" + id, A, { codec(srtc::Codec::VP8) }, {} };
    case 10:
        return { "wrong" + id, V, { codec(srtc::Codec::Opus) }, {} };
    case 11:
        return { "", V, { codec(srtc::Codec::VP8) }, {} };
    case 12:
        return { "same", V, { codec(srtc::Codec::VP8) }, {} };
    case 13:
        return { "datachannel", V, { codec(srtc::Codec::VP8) }, {} };
    default:
        return { "twice" + id, V, { codec(srtc::Codec::VP8) }, { kLayers[0], kLayers[1], kLayers[0] } };
    }
}

void checkOffer(mc::Ctx& ctx, const Offer& o)
{
    const auto list = sections(o.text);
    ctx.check(list.size() == o.items.size() + (o.channels.empty() ? 0 : 1), P, "offer-sections", "%zu sections", list.size());
    std::set<int> used;
    std::set<uint32_t> ssrcs;
    std::set<std::string> mids;
    std::map<int, std::string> ext;
    std::vector<std::string> order;
    uint32_t firstSsrc = 0;
    for (size_t i = 0; i < list.size(); i += 1) {
        const auto& s = list[i];
        order.push_back(s.mid);
        ctx.check(!s.mid.empty() && mids.insert(s.mid).second, P, "offer-mid", "media identifier \"%s\" is used twice", s.mid.c_str());
        ctx.check(s.ufrag == o.offer->getIceUFrag() && s.ufrag.size() >= 4, P, "offer-ice", "user fragment %s", s.ufrag.c_str());
        ctx.check(s.pwd == o.offer->getIcePassword() && s.pwd.size() >= 22, P, "offer-ice", "password %s", s.pwd.c_str());
        ctx.check(s.setup == "actpass", P, "offer-setup", "setup %s", s.setup.c_str());
        ctx.check(s.fingerprint == "sha-256 " + o.offer->getCertificate()->getSha256FingerprintHex(), P, "offer-fingerprint", "fingerprint %s", s.fingerprint.c_str());
        if (i == o.items.size()) {
            ctx.check(s.type == "application" && s.proto == "UDP/DTLS/SCTP" &&
                          s.other.count("sctp-port") && s.other.at("sctp-port") == std::to_string(o.offer->getSctpPort()) &&
                          s.other.count("max-message-size") && s.other.at("max-message-size") == std::to_string(o.offer->getSctpMaxMessageSize()),
                      P, "offer-data", "the data section is not as it should be");
            continue;
        }
        const auto& it = o.items[i];
        const auto video = it.type == srtc::MediaType::Video;
        ctx.check(s.mid == it.id && s.type == (video ? "video" : "audio") && s.proto == "UDP/TLS/RTP/SAVPF" && s.port != "0",
                  P, "offer-media", "section %zu is %s %s", i, s.type.c_str(), s.mid.c_str());
        ctx.check(s.dir == (o.publish ? "sendonly" : "recvonly"), P, "offer-direction", "direction %s", s.dir.c_str());
        ctx.check(s.other.count("rtcp-mux") == 1, P, "offer-mux", "no rtcp-mux");
        // Codecs
        std::vector<int> codecs;
        std::map<int, int> rtxOf;
        for (const auto pt : s.pts) {
            ctx.check(pt >= 96 && pt <= 127, P, "offer-payload-id", "payload type %d", pt);
            ctx.check(used.insert(pt).second, P, "offer-payload-id", "payload type %d is used twice", pt);
            ctx.check(s.rtpmap.count(pt) == 1, P, "offer-rtpmap", "payload type %d is not described", pt);
            if (s.rtpmap.at(pt) == "rtx/90000") {
                int apt = -1;
                if (s.fmtp.count(pt)) {
                    sscanf(s.fmtp.at(pt).c_str(), "apt=%d", &apt);
                }
                ctx.check(rtxOf.count(apt) == 0, P, "offer-rtx", "two retransmission formats for %d", apt);
                rtxOf[apt] = pt;
            } else {
                codecs.push_back(pt);
            }
        }
        ctx.check(s.rtpmap.size() == s.pts.size(), P, "offer-rtpmap", "%zu formats are described, %zu listed", s.rtpmap.size(), s.pts.size());
        ctx.check(codecs.size() == it.codecs.size(), P, "offer-codecs", "%zu codecs", codecs.size());
        for (size_t k = 0; k < codecs.size(); k += 1) {
            const auto pt = codecs[k];
            const auto& c = it.codecs[k];
            ctx.check(s.rtpmap.at(pt) == mapOf(c.codec), P, "offer-codec", "%s for %s", s.rtpmap.at(pt).c_str(), mapOf(c.codec));
            const auto f = s.fmtp.count(pt) ? ";" + s.fmtp.at(pt) + ";" : "";
            char want[64] = "";
            if (c.codec == srtc::Codec::H264) {
                snprintf(want, sizeof(want), ";profile-level-id=%06x;", c.profile_level_id);
                ctx.check(f.find(";packetization-mode=1;") != std::string::npos, P, "offer-fmtp", "%s", f.c_str());
            } else if (c.codec == srtc::Codec::Opus) {
                snprintf(want, sizeof(want), ";minptime=%u;", c.minptime);
                ctx.check(f.find(c.stereo ? ";stereo=1;" : ";stereo=0;") != std::string::npos, P, "offer-fmtp", "%s", f.c_str());
            }
            ctx.check(want[0] == 0 || f.find(want) != std::string::npos, P, "offer-fmtp", "%s does not say %s", f.c_str(), want);
            ctx.check(s.fb.count(pt) && s.fb.at(pt).count("nack") && s.fb.at(pt).count("nack pli") == video, P, "offer-feedback", "feedback for %d", pt);
            ctx.check(rtxOf.count(pt) == o.withRtx(), P, "offer-rtx", "retransmission for %d: %zu", pt, rtxOf.count(pt));
        }
        // Extensions: one meaning for a number all over the bundle
        for (const auto& e : s.extmap) {
            ctx.check(e.first >= 1 && e.first <= 14, P, "offer-extension", "extension %d", e.first);
            ctx.check(ext.emplace(e.first, e.second).first->second == e.second, P, "offer-extension", "extension %d has two meanings", e.first);
        }
        const auto has = [&](const char* uri) {
            return std::count_if(s.extmap.begin(), s.extmap.end(), [&](const auto& e) { return e.second == uri; }) == 1;
        };
        const auto sim = o.publish && !it.layers.empty();
        ctx.check(has("http://www.ietf.org/id/draft-holmer-rmcat-transport-wide-cc-extensions-01") == (o.bwe || !o.publish), P, "offer-extension", "transport-wide sequence numbers");
        ctx.check(has("urn:ietf:params:rtp-hdrext:sdes:mid") == sim && has("urn:ietf:params:rtp-hdrext:sdes:rtp-stream-id") == sim, P, "offer-extension", "stream identifiers");
        ctx.check(has("urn:ietf:params:rtp-hdrext:sdes:repaired-rtp-stream-id") == (sim && o.rtx), P, "offer-extension", "repaired stream identifiers");
        ctx.check(has("http://www.webrtc.org/experiments/rtp-hdrext/abs-capture-time") == o.abs, P, "offer-extension", "capture time");
        // Streams
        const auto streams = sim ? it.layers.size() : 1;
        ctx.check(s.ssrcs.size() == streams * (o.withRtx() ? 2 : 1), P, "offer-ssrc", "%zu stream identifiers", s.ssrcs.size());
        for (const auto n : s.ssrcs) {
            ctx.check(n != 0 && ssrcs.insert(n).second, P, "offer-ssrc", "stream identifier %u is used twice", n);
        }
        ctx.check(s.fids.size() == (o.withRtx() ? streams : 0), P, "offer-ssrc", "%zu pairs of stream identifiers", s.fids.size());
        std::set<uint32_t> paired;
        for (const auto& f : s.fids) {
            ctx.check(paired.insert(f.first).second && paired.insert(f.second).second &&
                          std::count(s.ssrcs.begin(), s.ssrcs.end(), f.first) && std::count(s.ssrcs.begin(), s.ssrcs.end(), f.second),
                      P, "offer-ssrc", "the pair %u, %u", f.first, f.second);
        }
        for (size_t k = 0; k < streams; k += 1) {
            const auto mine = sim ? o.offer->getVideoSimulastSSRC(it.id, it.layers[k].name) : o.offer->getMediaSSRC(it.id);
            const auto want = s.fids.empty() ? std::make_pair(s.ssrcs[k], 0u) : std::make_pair(s.fids[k].first, s.fids[k].second);
            ctx.check(mine == want, P, "offer-ssrc", "the offer says %u, %u, and means %u, %u", want.first, want.second, mine.first, mine.second);
            if (firstSsrc == 0) {
                firstSsrc = mine.first;
            }
        }
        std::vector<std::string> names;
        for (const auto& l : it.layers) {
            names.push_back(l.name);
        }
        ctx.check(!sim || (s.rids == names && s.simulcast == names), P, "offer-layers", "layers");
        ctx.check(sim || (s.rids.empty() && s.simulcast.empty()), P, "offer-layers", "layers");
    }
    if (list.size() > 1) {
        std::string want = "a=group:BUNDLE";
        for (const auto& m : order) {
            want += " " + m;
        }
        const auto all = lines(o.text);
        ctx.check(std::count(all.begin(), all.end(), want) == 1, P, "offer-bundle", "no line %s", want.c_str());
    }
    if (firstSsrc) {
        ctx.check(o.offer->getControlPacketSource() && ssrcs.count(o.offer->getControlPacketSource()->getSSRC()), P, "offer-control", "reports come from a stream not in the offer");
    }
}

void offersScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    Offer o;
    o.publish = ctx.choose(2, "direction") == 0;
    if (o.publish) {
        o.rtx = ctx.choose(2, "rtx") == 0;
        o.bwe = ctx.choose(2, "bwe") != 0;
        o.rid = ctx.choose(2, "rfc8851") != 0;
    }
    o.abs = ctx.choose(2, "capture time") != 0;
    const auto n = ctx.choose(3, "channels");
    for (int i = 0; i < n; i += 1) {
        o.channels.push_back("c" + std::to_string(i));
    }
    const auto kinds = 15;
    const auto max = ctx.thorough() ? 4 : 3;
    for (int i = 0; i < max; i += 1) {
        const auto k = ctx.choose(kinds + 1, "media");
        if (k == kinds) {
            break;
        }
        o.items.push_back(item(k, i));
        // Not more than one of these in each
        if (k >= 8 && k != 12) {
            break;
        }
    }
    sim::Config config;
    sim::Guard guard(ctx, config);
    o.make();
    ctx.step();
    bool valid = !o.items.empty() || !o.channels.empty();
    size_t formats = 0;
    std::set<std::string> ids;
    for (const auto& i : o.items) {
        formats += i.codecs.size() * (o.withRtx() ? 2 : 1);
        valid = valid && !i.codecs.empty() && !i.id.empty() && ids.insert(i.id).second && (i.id != "datachannel" || o.channels.empty());
        for (const auto& c : i.codecs) {
            valid = valid && (c.codec == srtc::Codec::Opus) == (i.type == srtc::MediaType::Audio);
        }
        std::set<std::string> names;
        for (const auto& l : i.layers) {
            valid = valid && (!o.publish || names.insert(l.name).second);
        }
    }
    valid = valid && formats <= 32;
    ctx.outcome(mc::hash_bytes(o.text.data(), o.text.size()));
    if (!valid) {
        ctx.check(o.failed, P, "offer-invalid", "an offer is made of a configuration that is not possible:\n%s", o.text.c_str());
    } else {
        ctx.check(!o.failed, P, "offer-refused", "no offer is made: %s", o.why.c_str());
        checkOffer(ctx, o);
        const auto again = o.offer->generate();
        ctx.check(again.first == o.text, P, "offer-again", "asked again, the offer is another one");
        checkOffer(ctx, o);
    }
    ctx.state(mc::mix(o.items.size(), formats));
    o.pc.reset();
}

// ----- Answers to it that accept a part

struct Expected {
    std::string mid;
    srtc::MediaType type;
    srtc::Codec codec;
    int pt, rtxPt;
    uint32_t ssrc, rtxSsrc, clock;
    bool nack, pli;
    std::string layer;
    size_t layerIndex = 0;
    uint32_t profile = 0, minptime = 0;
    bool stereo = false;
};

struct Null : public srtc::TrackSelector {
    [[nodiscard]] std::shared_ptr<srtc::Track> selectTrack(const std::vector<std::shared_ptr<srtc::Track>>&) const override
    {
        return nullptr;
    }
};

struct Last : public srtc::TrackSelector {
    [[nodiscard]] std::shared_ptr<srtc::Track> selectTrack(const std::vector<std::shared_ptr<srtc::Track>>& list) const override
    {
        return list.back();
    }
};

const std::string kHash = "00:11:22:33:44:55:66:77:88:99:AA:BB:CC:DD:EE:FF:00:11:22:33:44:55:66:77:88:99:aa:bb:cc:dd:ee:f1";

void checkTracks(mc::Ctx& ctx, const srtc::SdpAnswer& answer, const std::vector<Expected>& expected, const std::string& text)
{
    const auto tracks = answer.getTrackList();
    ctx.check(tracks.size() == expected.size(), P, "tracks", "%zu tracks, %zu agreed:\n%s", tracks.size(), expected.size(), text.c_str());
    for (size_t i = 0; i < tracks.size(); i += 1) {
        const auto& t = *tracks[i];
        const auto& e = expected[i];
        const auto is = [&](const char* what, long long got, long long want) {
            ctx.check(got == want, P, what, "track %zu (%s %s): %s is %lld, agreed is %lld:\n%s", i, e.mid.c_str(), e.layer.c_str(), what, got, want, text.c_str());
        };
        ctx.check(t.getMedia() && t.getMedia()->getId() == e.mid, P, "track-media", "track %zu belongs to %s:\n%s", i, t.getMedia()->getId().c_str(), text.c_str());
        is("type", static_cast<int>(t.getMediaType()), static_cast<int>(e.type));
        is("codec", static_cast<int>(t.getCodec()), static_cast<int>(e.codec));
        is("payload-id", t.getPayloadId(), e.pt);
        is("rtx-payload-id", t.getRtxPayloadId(), e.rtxPt);
        is("ssrc", t.getSSRC(), e.ssrc);
        if (e.rtxPt != 0) {
            is("rtx-ssrc", t.getRtxSSRC(), e.rtxSsrc);
        }
        is("clock-rate", t.getClockRate(), e.clock);
        is("nack", t.hasNack(), e.nack);
        is("pli", t.hasPli(), e.pli);
        is("simulcast", t.isSimulcast(), !e.layer.empty());
        if (!e.layer.empty()) {
            const auto l = t.getSimulcastLayer();
            const auto& want = kLayers[e.layerIndex];
            ctx.check(l->name == e.layer, P, "layer", "layer %s instead of %s", l->name.c_str(), e.layer.c_str());
            is("layer-index", l->index, static_cast<long long>(e.layerIndex));
            is("layer-size", l->width * 10000 + l->height, want.width * 10000 + want.height);
            is("layer-rate", l->kilobits_per_second * 100 + l->frames_per_second, want.kilobits_per_second * 100 + want.frames_per_second);
        }
        const auto options = t.getCodecOptions();
        is("profile", options ? options->profileLevelId : 0, e.profile);
        is("minptime", options ? options->minptime : 0, e.minptime);
        is("stereo", options ? options->stereo : 0, e.stereo);
    }
}

void answersScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    Offer o;
    const auto kind = ctx.choose(6, "offer");
    o.publish = kind < 4;
    switch (kind) {
    case 0:
        o.items = { item(2, 0), item(3, 1) };
        o.channels = { "c" };
        break;
    case 1:
        o.items = { item(4, 0), item(1, 1) };
        o.bwe = true;
        break;
    case 2:
        o.items = { item(1, 0), item(5, 1), item(0, 2) };
        o.rtx = false;
        o.rid = true;
        o.abs = true;
        break;
    case 3:
        o.items = { item(5, 0) };
        o.channels = { "c" };
        o.bwe = true;
        break;
    case 4:
        o.items = { item(2, 0), item(3, 1) };
        o.channels = { "c" };
        o.abs = true;
        break;
    default:
        o.items = { item(0, 0), item(1, 1), item(0, 2) };
        break;
    }
    sim::Config config;
    sim::Guard guard(ctx, config);
    o.make();
    const auto offered = sections(o.text);
    std::vector<Expected> expected;
    std::vector<std::pair<std::string, std::map<int, std::string>>> media;
    const auto active = ctx.deviate(2, "setup") != 0;
    std::string text = "v=0\no=- 1 2 IN IP4 127.0.0.1\ns=-\nt=0 0\n";
    bool data = false;
    uint32_t maxSize = 262144;
    bool anything = false;
    uint32_t nextSsrc = 1000;
    const auto selectorKind = ctx.deviate(3, "selector");
    const std::vector<std::string> hosts = { "10.1.2.3 5000", "fd00::1 6000" };
    bool candidates = false;
    for (size_t i = 0; i < offered.size(); i += 1) {
        const auto& s = offered[i];
        const auto how = ctx.deviate(3, "section");
        if (how == 1) {
            continue; // as if it had not been there
        }
        std::string t;
        const auto transport = [&] {
            t += "c=IN IP4 0.0.0.0\na=ice-ufrag:remo\na=ice-pwd:remotepasswordremotepassword\na=fingerprint:sha-256 " + kHash + "\n";
            t += std::string("a=setup:") + (active ? "active" : "passive") + "\n";
            t += "a=mid:" + s.mid + "\n";
            if (!candidates) {
                candidates = true;
                for (const auto& h : hosts) {
                    t += "a=candidate:1 1 udp 2130706431 " + h + " typ host generation 0\n";
                }
                t += "a=candidate:1 2 udp 2130706431 10.9.9.9 5001 typ host\n";
                t += "a=candidate:1 1 tcp 2130706431 10.9.9.8 5001 typ host tcptype active\n";
                t += "a=candidate:2 1 udp 2130706431 10.9.9.7 5001 typ srflx raddr 10.1.2.3 rport 5000\n";
            }
        };
        if (s.type == "application") {
            if (how == 2) {
                text += "m=application 0 UDP/DTLS/SCTP webrtc-datachannel\na=mid:" + s.mid + "\n";
                continue;
            }
            t += "m=application 9 UDP/DTLS/SCTP webrtc-datachannel\n";
            transport();
            t += "a=sctp-port:5000\n";
            switch (ctx.deviate(3, "size")) {
            case 0:
                t += "a=max-message-size:262144\n";
                break;
            case 1:
                t += "a=max-message-size:1200\n";
                maxSize = 1200;
                break;
            default:
                t += "a=max-message-size:1073741823\n";
                maxSize = 1073741823;
                break;
            }
            data = true;
            anything = true;
            text += t;
            continue;
        }
        if (how == 2) {
            // Refused, in the way that is meant for it
            text += "m=" + s.type + " 0 UDP/TLS/RTP/SAVPF " + std::to_string(s.pts.front()) + "\na=mid:" + s.mid + "\na=inactive\n";
            continue;
        }
        anything = true;
        // Which formats
        std::vector<int> codecs;
        std::map<int, int> rtxOf;
        for (const auto pt : s.pts) {
            int apt = -1;
            if (s.rtpmap.at(pt) == "rtx/90000") {
                sscanf(s.fmtp.at(pt).c_str(), "apt=%d", &apt);
                rtxOf[apt] = pt;
            } else {
                codecs.push_back(pt);
            }
        }
        // (all) (reversed) (only the k-th)
        const auto which = ctx.deviate(codecs.size() > 1 ? 2 + static_cast<int>(codecs.size()) : 1, "codecs");
        if (which == 1) {
            std::reverse(codecs.begin(), codecs.end());
        } else if (which >= 2) {
            codecs = { codecs[static_cast<size_t>(which) - 2] };
        }
        const auto rtx = rtxOf.empty() ? 1 : ctx.deviate(4, "rtx"); // all, none, not for the first, listed first
        if (rtx == 1) {
            rtxOf.clear();
        } else if (rtx == 2) {
            rtxOf.erase(codecs.front());
        }
        std::vector<int> pts = codecs;
        for (const auto pt : codecs) {
            if (rtxOf.count(pt)) {
                pts.insert(rtx == 3 ? pts.begin() : pts.end(), rtxOf.at(pt));
            }
        }
        t += "m=" + s.type + " 9 UDP/TLS/RTP/SAVPF";
        for (const auto pt : pts) {
            t += " " + std::to_string(pt);
        }
        t += "\n";
        transport();
        t += o.publish ? "a=recvonly\n" : "a=sendonly\n";
        t += "a=rtcp-mux\n";
        const auto fb = ctx.deviate(4, "feedback"); // both, nack, pli, none
        for (const auto pt : pts) {
            t += "a=rtpmap:" + std::to_string(pt) + " " + s.rtpmap.at(pt) + "\n";
            if (s.fmtp.count(pt)) {
                t += "a=fmtp:" + std::to_string(pt) + " " + s.fmtp.at(pt) + "\n";
            }
            if (s.fb.count(pt)) {
                for (const auto& f : s.fb.at(pt)) {
                    const auto pli = f == "nack pli";
                    if (pli ? (fb == 0 || fb == 2) : (fb == 0 || fb == 1)) {
                        t += "a=rtcp-fb:" + std::to_string(pt) + " " + f + "\n";
                    }
                }
            }
        }
        const auto ext = s.extmap.empty() ? 0 : ctx.deviate(2 + static_cast<int>(s.extmap.size()), "extensions"); // all, none, without one
        std::map<int, std::string> accepted;
        int k = 0;
        for (const auto& e : s.extmap) {
            if (ext == 0 || (ext >= 2 && ext - 2 != k)) {
                accepted[e.first] = e.second;
                t += "a=extmap:" + std::to_string(e.first) + " " + e.second + "\n";
            }
            k += 1;
        }
        // Streams
        std::pair<uint32_t, uint32_t> ids = { 0, 0 };
        if (!o.publish) {
            ids = { nextSsrc, nextSsrc + 1 };
            nextSsrc += 2;
            const auto form = ctx.deviate(3, "streams");
            const auto line = [&](uint32_t n) { t += "a=ssrc:" + std::to_string(n) + " cname:other\na=ssrc:" + std::to_string(n) + " msid:x y\n"; };
            if (form == 1) {
                line(ids.first); // no retransmission
                ids.second = 0;
            } else if (form == 2) {
                line(ids.second); // in another order
                line(ids.first);
                t += "a=ssrc-group:FID " + std::to_string(ids.first) + " " + std::to_string(ids.second) + "\n";
            } else {
                t += "a=ssrc-group:FID " + std::to_string(ids.first) + " " + std::to_string(ids.second) + "\n";
                line(ids.first);
                line(ids.second);
            }
        } else if (s.fids.empty()) {
            ids = { s.ssrcs.front(), 0 };
        } else {
            ids = s.fids.front();
        }
        // Layers
        std::vector<std::string> layers;
        if (!s.simulcast.empty()) {
            const auto n = static_cast<int>(s.simulcast.size());
            const auto l = ctx.deviate(3 + n, "layers"); // all, reversed, none, only one
            layers = s.simulcast;
            if (l == 1) {
                std::reverse(layers.begin(), layers.end());
            } else if (l == 2) {
                layers.clear();
            } else if (l > 2) {
                layers = { layers[static_cast<size_t>(l) - 3] };
            }
            for (const auto& name : layers) {
                t += "a=rid:" + name + " recv\n";
            }
            if (!layers.empty()) {
                t += "a=simulcast:recv ";
                for (size_t j = 0; j < layers.size(); j += 1) {
                    t += (j ? ";" : "") + layers[j];
                }
                t += "\n";
            }
        }
        text += t;
        media.emplace_back(s.mid, accepted);
        Expected e;
        e.mid = s.mid;
        e.type = s.type == "video" ? srtc::MediaType::Video : srtc::MediaType::Audio;
        const auto chosen = selectorKind == 1 ? codecs.back() : codecs.front();
        e.pt = chosen;
        const auto& map = s.rtpmap.at(chosen);
        for (const auto c : { srtc::Codec::VP8, srtc::Codec::VP9, srtc::Codec::H264, srtc::Codec::H265, srtc::Codec::AV1, srtc::Codec::Opus }) {
            if (map == mapOf(c)) {
                e.codec = c;
            }
        }
        e.clock = e.type == srtc::MediaType::Video ? 90000 : 48000;
        e.rtxPt = rtxOf.count(chosen) ? rtxOf.at(chosen) : 0;
        e.ssrc = ids.first;
        e.rtxSsrc = ids.second;
        e.nack = fb <= 1;
        e.pli = (fb == 0 || fb == 2) && e.type == srtc::MediaType::Video;
        if (s.fmtp.count(chosen)) {
            const auto f = ";" + s.fmtp.at(chosen);
            const auto value = [&](const char* key, int base) -> uint32_t {
                const auto at = f.find(std::string(";") + key + "=");
                return at == std::string::npos ? 0 : static_cast<uint32_t>(strtoul(f.c_str() + at + strlen(key) + 2, nullptr, base));
            };
            e.profile = e.type == srtc::MediaType::Video ? value("profile-level-id", 16) : 0;
            e.minptime = value("minptime", 10);
            e.stereo = value("stereo", 10) != 0;
        }
        if (layers.empty()) {
            expected.push_back(e);
        } else {
            for (const auto& name : layers) {
                const auto at = static_cast<size_t>(std::find(s.simulcast.begin(), s.simulcast.end(), name) - s.simulcast.begin());
                e.layer = name;
                e.layerIndex = at;
                e.ssrc = s.fids.empty() ? s.ssrcs[at] : s.fids[at].first;
                e.rtxSsrc = s.fids.empty() ? 0 : s.fids[at].second;
                expected.push_back(e);
            }
        }
    }
    if (ctx.deviate(2, "line ends")) {
        std::string t;
        for (const auto c : text) {
            t += c == '\n' ? std::string("\r\n") : std::string(1, c);
        }
        text = t;
    }
    std::shared_ptr<srtc::TrackSelector> selector;
    if (selectorKind == 1) {
        selector = std::make_shared<Last>();
    } else if (selectorKind == 2) {
        selector = std::make_shared<Null>();
    }
    const auto r = o.publish ? o.pc->parsePublishAnswer(o.offer, text, selector) : o.pc->parseSubscribeAnswer(o.offer, text, selector);
    ctx.step();
    ctx.outcome(mc::hash_bytes(text.data(), text.size()));
    ctx.state(mc::mix(expected.size(), media.size()));
    if (!anything || (selectorKind == 2 && !expected.empty())) {
        ctx.check(r.second.isError() && !r.first, P, "answer-accepted", "an answer with nothing in it, or nothing that was chosen, is accepted");
        return;
    }
    ctx.check(!r.second.isError() && r.first, P, "answer-refused", "the answer is refused (%s):\n%s", r.second.message.c_str(), text.c_str());
    const auto& a = *r.first;
    checkTracks(ctx, a, expected, text);
    ctx.check(a.getMediaList().size() == media.size(), P, "media", "%zu media:\n%s", a.getMediaList().size(), text.c_str());
    for (size_t i = 0; i < media.size(); i += 1) {
        const auto m = a.getMediaList()[i];
        ctx.check(m->getId() == media[i].first, P, "media", "media %s", m->getId().c_str());
        std::map<int, std::string> got;
        for (int id = 1; id < 256; id += 1) {
            const auto name = m->getExtensionMap().findById(static_cast<uint8_t>(id));
            if (!name.empty()) {
                got[id] = name;
                ctx.check(m->getExtensionMap().findByName(name) == id, P, "extensions", "%s is %d", name.c_str(), m->getExtensionMap().findByName(name));
            }
        }
        ctx.check(got == media[i].second, P, "extensions", "%zu extensions, %zu agreed:\n%s", got.size(), media[i].second.size(), text.c_str());
    }
    ctx.check(a.getIceUFrag() == "remo" && a.getIcePassword() == "remotepasswordremotepassword", P, "credentials", "wrong credentials");
    ctx.check(a.isSetupActive() == active, P, "setup", "wrong role");
    ctx.check(a.hasDataChannel() == data && (!data || (a.getSctpPort() == 5000 && a.getMaxMessageSize() == maxSize)), P, "data", "data channels:\n%s", text.c_str());
    Bytes hash;
    for (size_t i = 0; i < kHash.size(); i += 3) {
        hash.push_back(static_cast<uint8_t>(strtoul(kHash.substr(i, 2).c_str(), nullptr, 16)));
    }
    ctx.check(a.getCertificateHash().getAlg() == "sha-256" && mcu::toBytes(a.getCertificateHash().getBin()) == hash, P, "fingerprint", "wrong fingerprint");
    std::vector<std::string> got;
    for (const auto& h : a.getHostList()) {
        char ip[64] = "";
        if (h.addr.ss.ss_family == AF_INET) {
            inet_ntop(AF_INET, &h.addr.sin_ipv4.sin_addr, ip, sizeof(ip));
            got.push_back(std::string(ip) + " " + std::to_string(ntohs(h.addr.sin_ipv4.sin_port)));
        } else {
            inet_ntop(AF_INET6, &h.addr.sin_ipv6.sin6_addr, ip, sizeof(ip));
            got.push_back(std::string(ip) + " " + std::to_string(ntohs(h.addr.sin_ipv6.sin6_port)));
        }
    }
    ctx.check(got == hosts, P, "hosts", "%zu candidates", got.size());
    ctx.check(a.isVideoSimulcast() == std::any_of(expected.begin(), expected.end(), [](const Expected& e) { return !e.layer.empty(); }), P, "simulcast", "simulcast");
    o.pc.reset();
}

// ----- Answers that are anything else

void hostileScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    sim::Config config;
    sim::Guard guard(ctx, config);
    Offer o;
    const auto kind = ctx.choose(3, "offer");
    o.publish = kind < 2;
    if (kind == 0) {
        o.items = { { "v", srtc::MediaType::Video, { codec(srtc::Codec::H264, 0x42e01f) }, {} }, item(1, 1) };
        o.channels = { "c" };
    } else if (kind == 1) {
        o.items = { item(4, 0) };
        o.bwe = true;
    } else {
        o.items = { { "v", srtc::MediaType::Video, { codec(srtc::Codec::VP8) }, {} }, item(1, 1) };
        o.channels = { "c" };
    }
    o.make();
    AnswerOptions ao;
    ao.hosts = { "10.0.0.9 5009" };
    ao.keepSsrc = !o.publish;
    ao.dir = o.publish ? "recvonly" : "sendonly";
    auto base = makeAnswer(o.text, o.text, ao);
    base.erase(std::remove(base.begin(), base.end(), '\r'), base.end());
    auto list = lines(base);
    const auto rounds = ctx.thorough() && ctx.choose(2, "rounds") ? 2 : 1;
    bool cut = false;
    // Where to: anywhere, or when there are two changes, the places that make a difference
    const auto place = [&](size_t at, int size) {
        if (rounds == 1) {
            return ctx.choose(size, "position");
        }
        std::vector<int> places = { 0, std::max(0, static_cast<int>(at) - 1), std::min(size - 1, static_cast<int>(at) + 1), size - 1 };
        for (size_t i = 0; i < list.size(); i += 1) {
            if (startsWith(list[i], "m=")) {
                places.push_back(std::min(size - 1, static_cast<int>(i)));
                places.push_back(std::min(size - 1, static_cast<int>(i) + 1));
            }
        }
        std::sort(places.begin(), places.end());
        places.erase(std::unique(places.begin(), places.end()), places.end());
        return places[static_cast<size_t>(ctx.choose(static_cast<int>(places.size()), "position"))];
    };
    for (int round = 0; round < rounds && !cut; round += 1) {
        if (round == 0 && rounds == 1 && ctx.choose(2, "whole")) {
            // Cut off anywhere
            base.resize(static_cast<size_t>(ctx.choose(static_cast<int>(base.size()), "length")));
            list = lines(base);
            cut = true;
            break;
        }
        const auto at = static_cast<size_t>(ctx.choose(static_cast<int>(list.size()), "line"));
        switch (ctx.choose(rounds == 2 ? 3 : 5, "change")) {
        case 0:
            list.erase(list.begin() + static_cast<long>(at));
            break;
        case 1: {
            // again somewhere
            const auto to = place(at, static_cast<int>(list.size()) + 1);
            list.insert(list.begin() + to, std::string(list[at]));
            break;
        }
        case 2: {
            // moved
            const auto to = place(at, static_cast<int>(list.size()));
            const auto l = list[at];
            list.erase(list.begin() + static_cast<long>(at));
            list.insert(list.begin() + std::min(static_cast<long>(to), static_cast<long>(list.size())), l);
            break;
        }
        case 3:
            list[at].resize(static_cast<size_t>(ctx.choose(static_cast<int>(list[at].size()), "length")));
            break;
        default: {
            // One word of it is another one
            static const char* words[] = { "", "0", "1", "-1", "95", "96", "97", "98", "127", "128", "255", "256", "65535", "65536", "65537", "4294967295",
                                           "4294967296", "18446744073709551615", "99999999999999999999999", "x", "v", "a1", "sim0", "lo", "hi", "lo;lo", "lo;mid;lo",
                                           ";;;", "VP8/90000", "opus/48000/2", "rtx/90000", "VP8/", "/", "VP8/0", "apt=96", "apt=97", "profile-level-id=",
                                           "profile-level-id=ffffffffff", "video", "audio", "application", "recv", "active", "10.0.0.1", "::1", "sha-1", ":", "=", " " };
            auto& l = list[at];
            // Words are separated by blanks, colons, equals signs, semicolons and slashes
            std::vector<std::pair<size_t, size_t>> found;
            size_t start = 0;
            for (size_t i = 0; i <= l.size(); i += 1) {
                if (i == l.size() || strchr(" :=;/", l[i])) {
                    found.emplace_back(start, i);
                    start = i + 1;
                }
            }
            // The fingerprint has a lot of them, all alike
            const auto count = std::min<size_t>(found.size(), 9);
            const auto w = found[static_cast<size_t>(ctx.choose(static_cast<int>(count), "word"))];
            l = l.substr(0, w.first) + words[ctx.choose(static_cast<int>(std::size(words)), "by")] + l.substr(w.second);
            break;
        }
        }
    }
    std::string text;
    for (const auto& l : list) {
        text += l + "\n";
    }
    const auto r = o.publish ? o.pc->parsePublishAnswer(o.offer, text, nullptr) : o.pc->parseSubscribeAnswer(o.offer, text, nullptr);
    ctx.step();
    ctx.outcome(mc::hash_bytes(text.data(), text.size()));
    if (r.second.isError()) {
        ctx.check(!r.first, P, "error-with-answer", "an error and an answer");
        o.pc.reset();
        return;
    }
    ctx.check(r.first != nullptr, P, "no-answer", "neither an error nor an answer");
    const auto& a = *r.first;
    ctx.check(!a.getHostList().empty(), P, "hostile-hosts", "no address");
    for (const auto& h : a.getHostList()) {
        const auto port = h.addr.ss.ss_family == AF_INET ? h.addr.sin_ipv4.sin_port : h.addr.sin_ipv6.sin6_port;
        ctx.check(port != 0, P, "hostile-port", "an address with port 0 is accepted:\n%s", text.c_str());
    }
    std::set<uint32_t> ssrcs;
    for (const auto& t : a.getTrackList()) {
        ctx.check(t && t->getMedia() && !t->getMedia()->getId().empty(), P, "hostile-track", "a track without media");
        ctx.check(t->getPayloadId() >= 96 && t->getPayloadId() <= 127, P, "hostile-payload", "payload type %u", t->getPayloadId());
        ctx.check(t->getClockRate() != 0, P, "hostile-clock", "no clock rate");
        ctx.check(t->getSSRC() != 0, P, "hostile-ssrc", "a track with stream identifier 0:\n%s", text.c_str());
        if (o.publish) {
            // Two streams of packets numbered independently, under one key
            ctx.check(ssrcs.insert(t->getSSRC()).second, P, "hostile-same-ssrc", "two tracks are to be sent with one stream identifier:\n%s", text.c_str());
            if (t->getRtxPayloadId() != 0) {
                ctx.check(t->getRtxSSRC() != 0 && ssrcs.insert(t->getRtxSSRC()).second, P, "hostile-same-ssrc", "two tracks are to be resent with one stream identifier:\n%s", text.c_str());
            }
            bool known = false;
            for (const auto& i : o.items) {
                known = known || i.id == t->getMedia()->getId();
            }
            ctx.check(known, P, "hostile-media", "a track of a media not offered: %s", t->getMedia()->getId().c_str());
        }
    }
    ctx.state(mc::mix(a.getTrackList().size(), a.getMediaList().size()));
    // It can be used
    ctx.check(!o.pc->setOffer(o.offer).isError(), P, "hostile-use", "the offer cannot be set");
    const auto e = o.pc->setAnswer(r.first);
    if (!e.isError()) {
        sim::sleepUs(150000);
    }
    o.pc->close();
    o.pc.reset();
}

} // namespace

namespace mc
{

void registerScenarios(bool)
{
    env::quiet();
    SSL_library_init();
    const std::vector<std::string> p = { "C08" };
    add("offers", p, 0, 0, offersScenario);
    add("answers", p, 3, 4, answersScenario);
    add("hostile", p, 0, 0, hostileScenario);
}

} // namespace mc
