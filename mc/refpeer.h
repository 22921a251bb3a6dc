// The other side of a connection, played by the harness: connectivity checks, the DTLS handshake and RTP / RTCP are
// its own, so that it can send anything and see everything. SRTP is the library's (checked by S01 to S05).
#pragma once

#include "peers.h"
#include "stun.h"

#include "srtc/srtp_connection.h"

#include <openssl/bio.h>
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/srtp.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>

#include <set>

namespace peers
{

inline uint16_t be16(const Bytes& b, size_t at)
{
    return static_cast<uint16_t>(b[at] << 8 | b[at + 1]);
}

inline uint32_t be32(const Bytes& b, size_t at)
{
    return static_cast<uint32_t>(be16(b, at)) << 16 | be16(b, at + 2);
}

inline void put16(Bytes& b, uint32_t v)
{
    b.push_back(static_cast<uint8_t>(v >> 8));
    b.push_back(static_cast<uint8_t>(v));
}

inline void put32(Bytes& b, uint32_t v)
{
    put16(b, v >> 16);
    put16(b, v);
}

inline void put(Bytes& b, const Bytes& more)
{
    b.insert(b.end(), more.begin(), more.end());
}

// ----- RTP

struct Rtp {
    bool marker = false;
    uint8_t pt = 0;
    uint16_t seq = 0;
    uint32_t ts = 0, ssrc = 0;
    uint16_t extProfile = 0;
    Bytes ext;     // without its header
    Bytes payload; // without padding
    uint8_t padding = 0;
    int64_t atUs = 0;
    size_t wire = 0; // the datagram
    bool again = false; // a datagram sent before
};

inline bool parseRtp(const Bytes& b, Rtp& r)
{
    if (b.size() < 12 || b[0] >> 6 != 2) {
        return false;
    }
    r.marker = b[1] >> 7;
    r.pt = b[1] & 0x7f;
    r.seq = be16(b, 2);
    r.ts = be32(b, 4);
    r.ssrc = be32(b, 8);
    size_t at = 12 + 4u * (b[0] & 15);
    if (b[0] & 0x10) {
        if (at + 4 > b.size()) {
            return false;
        }
        r.extProfile = be16(b, at);
        const size_t n = 4u * be16(b, at + 2);
        at += 4;
        if (at + n > b.size()) {
            return false;
        }
        r.ext.assign(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(at + n));
        at += n;
    }
    size_t end = b.size();
    if (b[0] & 0x20) {
        r.padding = b.back();
        if (r.padding == 0 || at + r.padding > end) {
            return false;
        }
        end -= r.padding;
    }
    if (at > end) {
        return false;
    }
    r.payload.assign(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(end));
    return true;
}

inline Bytes makeRtp(uint8_t pt, uint16_t seq, uint32_t ts, uint32_t ssrc, bool marker, const Bytes& payload)
{
    Bytes b = { 0x80, static_cast<uint8_t>(pt | (marker ? 0x80 : 0)) };
    put16(b, seq);
    put32(b, ts);
    put32(b, ssrc);
    put(b, payload);
    return b;
}

// ----- RTCP

struct Rtcp {
    uint8_t rc = 0, pt = 0;
    uint32_t ssrc = 0;
    Bytes body; // after the SSRC
    int64_t atUs = 0;
    size_t rtpSeen = 0; // media packets received before
};

inline Bytes makeRtcp(uint8_t rc, uint8_t pt, uint32_t ssrc, const Bytes& body)
{
    Bytes b = { static_cast<uint8_t>(0x80 | rc), pt };
    put16(b, static_cast<uint32_t>((8 + body.size() + 3) / 4 - 1));
    put32(b, ssrc);
    put(b, body);
    b.resize((b.size() + 3) / 4 * 4);
    return b;
}

// False if it is not a well-formed compound
inline bool parseRtcp(const Bytes& b, std::vector<Rtcp>& out)
{
    size_t at = 0;
    while (at < b.size()) {
        if (at + 8 > b.size() || b[at] >> 6 != 2 || b[at] & 0x20) {
            return false;
        }
        const size_t n = 4u * (be16(b, at + 2) + 1u);
        if (n < 8 || at + n > b.size()) {
            return false;
        }
        Rtcp r;
        r.rc = b[at] & 31;
        r.pt = b[at + 1];
        r.ssrc = be32(b, at + 4);
        r.body.assign(b.begin() + static_cast<long>(at + 8), b.begin() + static_cast<long>(at + n));
        out.push_back(std::move(r));
        at += n;
    }
    return true;
}

// ----- The certificate: one for all

struct Identity {
    X509* cert = nullptr;
    EVP_PKEY* key = nullptr;
    std::string fingerprint;

    static const Identity& get()
    {
        static const Identity one;
        return one;
    }

private:
    Identity()
    {
        key = EVP_EC_gen("P-256");
        cert = X509_new();
        ASN1_INTEGER_set(X509_get_serialNumber(cert), 1);
        X509_set_version(cert, 2);
        // As far as the virtual clock reaches, and the real one
        ASN1_TIME_set_string(X509_getm_notBefore(cert), "700101000000Z");
        ASN1_TIME_set_string(X509_getm_notAfter(cert), "491231000000Z");
        X509_set_pubkey(cert, key);
        const auto n = X509_get_subject_name(cert);
        X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, reinterpret_cast<const unsigned char*>("other"), -1, -1, 0);
        X509_set_issuer_name(cert, n);
        X509_sign(cert, key, EVP_sha256());
        uint8_t md[32];
        unsigned int len = 32;
        X509_digest(cert, EVP_sha256(), md, &len);
        for (const auto x : md) {
            char hex[4];
            snprintf(hex, sizeof(hex), "%s%02x", fingerprint.empty() ? "" : ":", x);
            fingerprint += hex;
        }
    }
};

// ----- The peer

struct RefPeer {
    mc::Ctx& ctx;
    const sim::Addr local = sim::addr("10.0.0.2", 5002);
    const sim::Addr remote = sim::addr("10.0.0.1", 5001);
    const std::string ufrag = "refu", pwd = "refpeerpassword123456789";
    const bool client;
    int ep = -1;

    SSL_CTX* sslCtx = nullptr;
    SSL* ssl = nullptr;
    BIO *in = nullptr, *out = nullptr;
    std::shared_ptr<srtc::SrtpConnection> srtp;
    bool answering = true; // connectivity checks
    bool failed = false;
    int64_t stunDelayUs = 0; // before an answer
    int64_t startedUs = 0;
    int requests = 0;

    std::vector<Rtp> rtp;
    std::map<Bytes, size_t> datagrams;
    std::vector<Rtcp> rtcp;
    std::vector<Bytes> compounds;
    std::vector<Bytes> appData;
    size_t undecodable = 0;
    std::map<uint32_t, uint32_t> srtcpIndex;

    RefPeer(mc::Ctx& c, bool isClient)
        : ctx(c)
        , client(isClient)
    {
        const auto& id = Identity::get();
        sslCtx = SSL_CTX_new(client ? DTLS_client_method() : DTLS_server_method());
        SSL_CTX_use_certificate(sslCtx, id.cert);
        SSL_CTX_use_PrivateKey(sslCtx, id.key);
        SSL_CTX_set_verify(sslCtx, SSL_VERIFY_PEER, [](int, X509_STORE_CTX*) { return 1; });
        SSL_CTX_set_tlsext_use_srtp(sslCtx, "SRTP_AES128_CM_SHA1_80");
        ssl = SSL_new(sslCtx);
        SSL_set_options(ssl, SSL_OP_NO_QUERY_MTU);
        SSL_set_mtu(ssl, 1200);
        in = BIO_new(BIO_s_mem());
        out = BIO_new(BIO_s_mem());
        BIO_set_mem_eof_return(in, -1);
        BIO_set_mem_eof_return(out, -1);
        SSL_set_bio(ssl, in, out);
        if (client) {
            SSL_set_connect_state(ssl);
        } else {
            SSL_set_accept_state(ssl);
        }
        ep = sim::openEndpoint(local);
    }

    RefPeer(const RefPeer&) = delete;

    ~RefPeer()
    {
        sim::closeEndpoint(ep);
        SSL_free(ssl);
        SSL_CTX_free(sslCtx);
    }

    static std::vector<std::pair<sim::Addr, sim::Addr>> links()
    {
        return Pair::links();
    }

    // The attributes makeAnswer() takes from the peer's description
    [[nodiscard]] std::string description() const
    {
        return "a=ice-ufrag:" + ufrag + "\na=ice-pwd:" + pwd + "\na=fingerprint:sha-256 " + Identity::get().fingerprint + "\n";
    }

    void flush()
    {
        char* p = nullptr;
        const auto n = BIO_get_mem_data(out, &p);
        if (n > 0) {
            const Bytes data(p, p + n);
            (void)BIO_reset(out);
            sim::send(ep, remote, data);
        }
    }

    void advance()
    {
        if (srtp == nullptr) {
            const auto r = SSL_do_handshake(ssl);
            flush();
            if (r == 1) {
                const auto made = srtc::SrtpConnection::create(ssl, !client);
                if (made.second.isError()) {
                    failed = true;
                    return;
                }
                srtp = made.first;
                srtp->onPeerConnected();
            } else if (SSL_get_error(ssl, r) != SSL_ERROR_WANT_READ) {
                failed = true;
                return;
            }
        }
        if (srtp) {
            uint8_t buf[4096];
            int n;
            while ((n = SSL_read(ssl, buf, sizeof(buf))) > 0) {
                appData.emplace_back(buf, buf + n);
            }
            flush();
        }
    }

    void handle(const Bytes& d)
    {
        if (ctx.verbose()) {
            ctx.log("%8.1f ms: other side gets %zu bytes, %02x %02x", static_cast<double>(env::nowUs()) / 1000.0, d.size(), d.empty() ? 0 : d[0], d.size() < 2 ? 0 : d[1]);
        }
        if (d.size() < 4) {
            return;
        }
        if (d[0] < 2) {
            if (d[0] == 0 && d[1] == 1 && answering && d.size() >= 20) {
                auto m = st::header(st::kResponse, Bytes(d.begin() + 8, d.begin() + 20));
                const uint8_t mapped[8] = { 0, 1, 0x13 ^ 0x21, 0x89 ^ 0x12, 10 ^ 0x21, 0 ^ 0x12, 0 ^ 0xa4, 1 ^ 0x42 };
                st::attr(m, st::kXorMapped, Bytes(mapped, mapped + 8));
                st::integrity(m, pwd);
                st::fingerprint(m);
                if (stunDelayUs) {
                    sim::inject(local, remote, m, stunDelayUs + 10000);
                } else {
                    sim::send(ep, remote, m);
                }
                // Not before the other one is ready for it, to spare us the timers
                requests += 1;
                if (client && startedUs == 0 && requests == 2) {
                    startedUs = env::nowUs();
                    advance();
                }
            }
        } else if (d[0] >= 20 && d[0] <= 63) {
            BIO_write(in, d.data(), static_cast<int>(d.size()));
            advance();
        } else if (d[0] >= 128 && d[0] <= 191 && srtp) {
            srtc::ByteBuffer plain;
            const srtc::ByteBuffer data(d.data(), d.size());
            if (d[1] >= 192 && d[1] <= 223) {
                if (!srtp->unprotectReceiveControl(data, plain)) {
                    undecodable += 1;
                    return;
                }
                std::vector<Rtcp> list;
                const auto bytes = mcu::toBytes(plain);
                ctx.check(parseRtcp(bytes, list) && !list.empty(), ctx.property(), "rtcp-malformed", "a compound of reports is malformed (%zu bytes)", bytes.size());
                compounds.push_back(bytes);
                for (auto& r : list) {
                    r.atUs = env::nowUs();
                    r.rtpSeen = rtp.size();
                    rtcp.push_back(std::move(r));
                }
            } else {
                Rtp r;
                if (const auto i = datagrams.find(d); i != datagrams.end()) {
                    r = rtp[i->second];
                    r.again = true;
                } else if (!srtp->unprotectReceiveMedia(data, plain) || !parseRtp(mcu::toBytes(plain), r)) {
                    undecodable += 1;
                    return;
                } else {
                    datagrams[d] = rtp.size();
                }
                r.atUs = env::nowUs();
                r.wire = d.size();
                rtp.push_back(std::move(r));
            }
        }
    }

    void pump()
    {
        Bytes d;
        sim::Addr from;
        while (sim::receive(ep, d, from)) {
            handle(d);
        }
    }

    bool waitFor(const std::function<bool()>& pred, int64_t timeoutUs)
    {
        const auto end = env::nowUs() + timeoutUs;
        while (true) {
            pump();
            if (pred()) {
                return true;
            }
            const auto left = end - env::nowUs();
            if (left <= 0) {
                return false;
            }
            sim::waitFor([&] { return sim::ready(ep) || pred(); }, left);
        }
    }

    void sleep(int64_t us)
    {
        waitFor([] { return false; }, us);
    }

    void sendRtcp(const Bytes& compound)
    {
        const auto ssrc = compound.size() >= 8 ? be32(compound, 4) : 0;
        const srtc::ByteBuffer data(compound.data(), compound.size());
        srtc::ByteBuffer output;
        if (srtp->protectSendControl(data, ++srtcpIndex[ssrc], output)) {
            sim::send(ep, remote, mcu::toBytes(output));
        }
    }

    void sendRtp(const Bytes& packet, uint32_t rollover = 0)
    {
        const srtc::ByteBuffer data(packet.data(), packet.size());
        srtc::ByteBuffer output;
        if (srtp->protectSendMedia(data, rollover, output)) {
            sim::send(ep, remote, mcu::toBytes(output));
        }
    }
};

// A connection under test with a RefPeer at the other side
struct Solo {
    mc::Ctx& ctx;
    std::shared_ptr<Peer> peer = std::make_shared<Peer>();
    RefPeer ref;

    Solo(mc::Ctx& c, srtc::Direction direction, bool refIsClient)
        : ctx(c)
        , ref(c, refIsClient)
    {
        peer->ctx = &ctx;
        peer->label = direction == srtc::Direction::Publish ? "pub" : "sub";
        peer->pc = std::make_unique<srtc::PeerConnection>(direction);
        peer->listen();
    }

    ~Solo()
    {
        peer->close();
        peer->pc.reset();
    }

    void offer(const std::pair<std::shared_ptr<srtc::SdpOffer>, srtc::Error>& made)
    {
        if (made.second.isError()) {
            die("offer", made.second.message);
        }
        peer->offer = made.first;
        peer->offerText = peer->offer->generate().first;
        peer->pc->setOffer(peer->offer);
    }

    // `base` is the session to answer with (the offer itself, when it is for a publisher)
    void answer(const std::string& base, AnswerOptions o)
    {
        o.active = ref.client;
        o.hosts = { "10.0.0.2 5002" };
        const auto text = makeAnswer(base, ref.description(), o);
        const auto made = peer->offer->getDirection() == srtc::Direction::Publish ? peer->pc->parsePublishAnswer(peer->offer, text, nullptr)
                                                                                 : peer->pc->parseSubscribeAnswer(peer->offer, text, nullptr);
        if (made.second.isError()) {
            die("answer", made.second.message);
        }
        peer->answer = made.first;
        const auto e = peer->pc->setAnswer(peer->answer);
        if (e.isError()) {
            die("start", e.message);
        }
    }

    // A subscription to the session of a publisher
    void subscribe(const srtc::PubOfferConfig& po, const srtc::PubMediaConfig& pm, const srtc::SubOfferConfig& so, const srtc::SubMediaConfig& sm)
    {
        srtc::PeerConnection other(srtc::Direction::Publish);
        const auto base = other.createPublishOffer(po, pm).first->generate().first;
        offer(peer->pc->createSubscribeOffer(so, sm));
        AnswerOptions a;
        a.keepSsrc = true;
        a.dir = "sendonly";
        a.rtx = po.enable_rtx;
        answer(base, a);
    }

    std::shared_ptr<srtc::Track> track(srtc::MediaType type) const
    {
        for (const auto& t : peer->answer->getTrackList()) {
            if (t->getMediaType() == type) {
                return t;
            }
        }
        return nullptr;
    }

    bool connect()
    {
        return ref.waitFor([this] { return peer->state() == State::Connected && ref.srtp; }, 10000000);
    }

    static void die(const char* what, const std::string& why)
    {
        fprintf(stderr, "harness: cannot make the %s: %s\n", what, why.c_str());
        _exit(70);
    }
};

// ----- Publishing to it

struct PubSetup {
    bool rtx = true, bwe = false, simulcast = false, client = true;
};

inline void publisher(Solo& s, const PubSetup& u)
{
    srtc::PubOfferConfig o;
    o.cname = "pub";
    o.enable_rtx = u.rtx;
    o.enable_bwe = u.bwe;
    srtc::PubMediaConfig m;
    m.media_list.push_back({ "v", srtc::MediaType::Video, { { srtc::Codec::VP8, 0 } }, {} });
    if (u.simulcast) {
        m.media_list.back().layer_list = { { "l", 320, 180, 15, 300 }, { "h", 640, 360, 15, 900 } };
    }
    m.media_list.push_back({ "a", srtc::MediaType::Audio, { { srtc::Codec::Opus } }, {} });
    s.offer(s.peer->pc->createPublishOffer(o, m));
    AnswerOptions a;
    a.rtx = u.rtx;
    s.answer(s.peer->offerText, a);
}

inline Bytes frame(size_t size, int n)
{
    auto r = mcu::pattern(7, static_cast<uint64_t>(n), size);
    // A VP8 key frame
    const uint8_t start[10] = { 0x10, 2, 0, 0x9d, 1, 0x2a, 0x40, 1, 0xb4, 0 };
    for (size_t i = 0; i < 10 && i < size; i += 1) {
        r[i] = start[i];
    }
    return r;
}

inline void publish(Solo& s, const std::shared_ptr<srtc::Track>& t, size_t size, int n)
{
    const auto data = frame(size, n);
    srtc::ByteBuffer b(data.data(), data.size());
    if (t->getMediaType() == srtc::MediaType::Video) {
        s.peer->pc->publishVideoFrame(t, env::nowUs(), std::move(b), 0);
    } else {
        s.peer->pc->publishAudioFrame(t, env::nowUs(), std::move(b), 0);
    }
}

// ----- A session to subscribe to

struct RefSession {
    srtc::PubOfferConfig po;
    srtc::PubMediaConfig pm;
    srtc::SubOfferConfig so;
    srtc::SubMediaConfig sm;
    explicit RefSession(bool rtx)
    {
        po.cname = "pub";
        po.enable_rtx = rtx;
        so.cname = "sub";
        pm.media_list.push_back({ "v", srtc::MediaType::Video, { { srtc::Codec::VP8, 0 } }, {} });
        pm.media_list.push_back({ "a", srtc::MediaType::Audio, { { srtc::Codec::Opus } }, {} });
        sm.media_list.push_back({ "v", srtc::MediaType::Video, { { srtc::Codec::VP8, 0 } } });
        sm.media_list.push_back({ "a", srtc::MediaType::Audio, { { srtc::Codec::Opus } } });
    }
};

} // namespace peers
