// SRTP and SRTCP: the real SrtpConnection / SrtpCrypto / ReplayProtection / RtpPacketSource against an independent
// implementation of RFC 3711 / RFC 7714 protection and against an ideal receiver (a set of accepted indices).
#include "util_mc.h"

#include "srtc/replay_protection.h"
#include "srtc/rtcp_packet.h"
#include "srtc/rtcp_packet_source.h"
#include "srtc/rtp_packet.h"
#include "srtc/rtp_packet_source.h"
#include "srtc/srtp_connection.h"
#include "srtc/srtp_crypto.h"
#include "srtc/srtp_util.h"

#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/srtp.h>

#include <array>
#include <map>
#include <optional>
#include <set>
#include <unordered_map>

using namespace srtc;
using mcu::Bytes;
using mcu::toBuf;
using mcu::toBytes;

namespace
{

struct Profile {
    const char* name;
    unsigned long id;
    size_t keySize, saltSize, rtpTag;
    bool gcm;
};

const Profile kProfiles[] = {
    { "gcm128", SRTP_AEAD_AES_128_GCM, 16, 12, 16, true },
    { "gcm256", SRTP_AEAD_AES_256_GCM, 32, 12, 16, true },
    { "cm80", SRTP_AES128_CM_SHA1_80, 16, 14, 10, false },
    { "cm32", SRTP_AES128_CM_SHA1_32, 16, 14, 4, false },
};

constexpr size_t kWindow = 2048;

// ----- An independent implementation of the sender's side

Bytes aesEcb(const Bytes& key, const Bytes& block)
{
    Bytes out(32);
    int n = 0;
    EVP_CIPHER_CTX* ctx = EVP_CIPHER_CTX_new();
    EVP_EncryptInit_ex(ctx, key.size() == 16 ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), nullptr, key.data(), nullptr);
    EVP_CIPHER_CTX_set_padding(ctx, 0);
    EVP_EncryptUpdate(ctx, out.data(), &n, block.data(), 16);
    EVP_CIPHER_CTX_free(ctx);
    out.resize(16);
    return out;
}

Bytes derive(const Bytes& key, const Bytes& salt, uint8_t label, size_t size)
{
    Bytes out;
    for (uint16_t n = 0; out.size() < size; n += 1) {
        Bytes x(16, 0);
        for (size_t i = 0; i < salt.size(); i += 1) {
            x[i] = salt[i];
        }
        x[7] ^= label;
        x[14] = static_cast<uint8_t>(n >> 8);
        x[15] = static_cast<uint8_t>(n);
        const auto b = aesEcb(key, x);
        out.insert(out.end(), b.begin(), b.end());
    }
    out.resize(size);
    return out;
}

Bytes aesCtr(const Bytes& key, const Bytes& iv, const uint8_t* p, size_t size)
{
    Bytes out;
    Bytes block = iv;
    for (size_t i = 0; i < size; i += 16) {
        const auto ks = aesEcb(key, block);
        for (size_t j = i; j < i + 16 && j < size; j += 1) {
            out.push_back(p[j] ^ ks[j - i]);
        }
        for (int k = 15; k >= 0; k -= 1) {
            block[k] += 1;
            if (block[k] != 0) {
                break;
            }
        }
    }
    return out;
}

Bytes hmacSha1(const Bytes& key, const Bytes& data)
{
    Bytes out(20);
    unsigned int n = 0;
    HMAC(EVP_sha1(), key.data(), static_cast<int>(key.size()), data.data(), data.size(), out.data(), &n);
    return out;
}

// Returns ciphertext followed by the tag
Bytes gcmSeal(const Bytes& key, const Bytes& iv, const Bytes& aad, const uint8_t* p, size_t size)
{
    Bytes out(size + 16);
    int n = 0;
    EVP_CIPHER_CTX* ctx = EVP_CIPHER_CTX_new();
    EVP_EncryptInit_ex(ctx, key.size() == 16 ? EVP_aes_128_gcm() : EVP_aes_256_gcm(), nullptr, key.data(), iv.data());
    EVP_EncryptUpdate(ctx, nullptr, &n, aad.data(), static_cast<int>(aad.size()));
    EVP_EncryptUpdate(ctx, out.data(), &n, p, static_cast<int>(size));
    EVP_EncryptFinal_ex(ctx, out.data() + n, &n);
    EVP_CIPHER_CTX_ctrl(ctx, EVP_CTRL_GCM_GET_TAG, 16, out.data() + size);
    EVP_CIPHER_CTX_free(ctx);
    return out;
}

void put32(Bytes& b, uint32_t v)
{
    for (int s = 24; s >= 0; s -= 8) {
        b.push_back(static_cast<uint8_t>(v >> s));
    }
}

uint32_t get32(const Bytes& b, size_t at)
{
    return (uint32_t(b[at]) << 24) | (uint32_t(b[at + 1]) << 16) | (uint32_t(b[at + 2]) << 8) | b[at + 3];
}

size_t rtpHeaderSize(const Bytes& p)
{
    size_t n = 12 + size_t(p[0] & 15) * 4;
    if (p[0] & 0x10) {
        n += 4 + 4 * ((size_t(p[n + 2]) << 8) | p[n + 3]);
    }
    return n;
}

struct RefSender {
    const Profile& pr;
    Bytes rtpKey, rtpAuth, rtpSalt, rtcpKey, rtcpAuth, rtcpSalt;

    RefSender(const Profile& profile, const Bytes& key, const Bytes& salt)
        : pr(profile)
        , rtpKey(derive(key, salt, 0, pr.keySize))
        , rtpAuth(derive(key, salt, 1, 20))
        , rtpSalt(derive(key, salt, 2, pr.saltSize))
        , rtcpKey(derive(key, salt, 3, pr.keySize))
        , rtcpAuth(derive(key, salt, 4, 20))
        , rtcpSalt(derive(key, salt, 5, pr.saltSize))
    {
    }

    [[nodiscard]] Bytes rtp(const Bytes& p, uint32_t roc) const
    {
        const size_t h = rtpHeaderSize(p);
        const uint32_t ssrc = get32(p, 8);
        Bytes out(p.begin(), p.begin() + static_cast<long>(h));
        if (pr.gcm) {
            Bytes iv(2, 0);
            put32(iv, ssrc);
            put32(iv, roc);
            iv.push_back(p[2]);
            iv.push_back(p[3]);
            for (size_t i = 0; i < 12; i += 1) {
                iv[i] ^= rtpSalt[i];
            }
            const auto s = gcmSeal(rtpKey, iv, out, p.data() + h, p.size() - h);
            out.insert(out.end(), s.begin(), s.end());
        } else {
            Bytes iv(4, 0);
            put32(iv, ssrc);
            put32(iv, roc);
            iv.push_back(p[2]);
            iv.push_back(p[3]);
            iv.push_back(0);
            iv.push_back(0);
            for (size_t i = 0; i < 14; i += 1) {
                iv[i] ^= rtpSalt[i];
            }
            const auto s = aesCtr(rtpKey, iv, p.data() + h, p.size() - h);
            out.insert(out.end(), s.begin(), s.end());
            Bytes m = out;
            put32(m, roc);
            const auto d = hmacSha1(rtpAuth, m);
            out.insert(out.end(), d.begin(), d.begin() + static_cast<long>(pr.rtpTag));
        }
        return out;
    }

    [[nodiscard]] Bytes rtcp(const Bytes& p, uint32_t index, bool encrypt = true) const
    {
        const uint32_t ssrc = get32(p, 4);
        Bytes out(p.begin(), p.begin() + 8);
        Bytes trailer;
        put32(trailer, index | (encrypt ? 0x80000000u : 0));
        if (pr.gcm) {
            Bytes iv(2, 0);
            put32(iv, ssrc);
            iv.push_back(0);
            iv.push_back(0);
            put32(iv, index);
            for (size_t i = 0; i < 12; i += 1) {
                iv[i] ^= rtcpSalt[i];
            }
            Bytes aad = encrypt ? out : p;
            aad.insert(aad.end(), trailer.begin(), trailer.end());
            if (!encrypt) {
                out = p;
            }
            const auto s = gcmSeal(rtcpKey, iv, aad, p.data() + 8, encrypt ? p.size() - 8 : 0);
            out.insert(out.end(), s.begin(), s.end());
            out.insert(out.end(), trailer.begin(), trailer.end());
        } else {
            Bytes iv(4, 0);
            put32(iv, ssrc);
            iv.push_back(0);
            iv.push_back(0);
            put32(iv, index);
            iv.push_back(0);
            iv.push_back(0);
            for (size_t i = 0; i < 14; i += 1) {
                iv[i] ^= rtcpSalt[i];
            }
            const auto s = encrypt ? aesCtr(rtcpKey, iv, p.data() + 8, p.size() - 8) : Bytes(p.begin() + 8, p.end());
            out.insert(out.end(), s.begin(), s.end());
            out.insert(out.end(), trailer.begin(), trailer.end());
            const auto d = hmacSha1(rtcpAuth, out);
            out.insert(out.end(), d.begin(), d.begin() + 10);
        }
        return out;
    }
};

// ----- The pair of connections

CryptoBytes cb(const Bytes& b)
{
    CryptoBytes r;
    r.assign(b.data(), b.size());
    return r;
}

struct Keys {
    Bytes keyA, saltA, keyB, saltB;
    Keys(const Profile& pr, uint64_t seed)
        : keyA(mcu::pattern(seed, 501, pr.keySize))
        , saltA(mcu::pattern(seed, 502, pr.saltSize))
        , keyB(mcu::pattern(seed, 503, pr.keySize))
        , saltB(mcu::pattern(seed, 504, pr.saltSize))
    {
    }
};

struct End {
    std::shared_ptr<SrtpCrypto> crypto;
    std::shared_ptr<SrtpConnection> conn;
};

End makeEnd(mc::Ctx& c, const Profile& pr, const Bytes& sk, const Bytes& ss, const Bytes& rk, const Bytes& rs)
{
    const auto [crypto, error] = SrtpCrypto::create(pr.id, cb(sk), cb(ss), cb(rk), cb(rs));
    if (error.isError()) {
        c.violation("create", "cannot create crypto for %s: %s", pr.name, error.message.c_str());
        c.abandon();
    }
    return { crypto, std::make_shared<SrtpConnection>(crypto, pr.id) };
}

Bytes rtpPacket(uint32_t ssrc, uint8_t pt, uint16_t seq, const Bytes& payload, int extWords = -1, int csrc = 0, int pad = 0)
{
    Bytes p;
    p.push_back(static_cast<uint8_t>(0x80 | (pad ? 0x20 : 0) | (extWords >= 0 ? 0x10 : 0) | csrc));
    p.push_back(pt);
    p.push_back(static_cast<uint8_t>(seq >> 8));
    p.push_back(static_cast<uint8_t>(seq));
    put32(p, 0x01020304u + seq * 7u);
    put32(p, ssrc);
    for (int i = 0; i < csrc; i += 1) {
        put32(p, 0xc5000000u + static_cast<uint32_t>(i));
    }
    if (extWords >= 0) {
        p.push_back(0xbe);
        p.push_back(0xde);
        p.push_back(static_cast<uint8_t>(extWords >> 8));
        p.push_back(static_cast<uint8_t>(extWords));
        for (int i = 0; i < extWords; i += 1) {
            put32(p, 0x10aa2000u + static_cast<uint32_t>(i));
        }
    }
    p.insert(p.end(), payload.begin(), payload.end());
    for (int i = 0; i < pad; i += 1) {
        p.push_back(static_cast<uint8_t>(i + 1 == pad ? pad : 0));
    }
    return p;
}

Bytes rtcpPacket(uint32_t ssrc, uint8_t pt, const Bytes& payload)
{
    return toBytes(RtcpPacket(ssrc, 1, pt, toBuf(payload)).generate());
}

// ----- Shapes: every profile, payload, extension, padding and CSRC class, any rollover count, two in a row

const int kPayloads[] = { 0, 1, 2, 15, 16, 17, 33, 160, 1200 };
const int kExt[] = { -1, 0, 1, 3 };
const int kPads[] = { 0, 1, 4, 255 };
const int kCsrc[] = { 0, 1, 2, 15 };
const uint64_t kIndices[] = { 1, 0xffff, 0x10000, 0x1ffff, 0x2abcd1234ull, 0xffffffffffffull };

void runShapes(mc::Ctx& c, const Profile& pr)
{
    env::reset(c.seed());
    const Keys k(pr, c.seed());
    const auto snd = makeEnd(c, pr, k.keyA, k.saltA, k.keyB, k.saltB);
    const auto rcv = makeEnd(c, pr, k.keyB, k.saltB, k.keyA, k.saltA);
    const RefSender ref(pr, k.keyA, k.saltA);

    // The first one is free, for the second one all classes are combined
    ByteBuffer enc, dec;
    uint64_t h = 0;
    for (int n = 0; n < 2; n += 1) {
        const int ps = n == 0 ? (c.choose(3, "first") * 4) : c.choose(9, "payload");
        const auto ext = n == 0 ? -1 : kExt[c.choose(4, "extension")];
        const auto pad = n == 0 ? 0 : kPads[c.choose(4, "padding")];
        const auto csrc = n == 0 ? 0 : kCsrc[c.choose(4, "csrc")];
        const auto idx = n == 0 ? 3 : kIndices[c.choose(6, "index")];
        const auto roc = static_cast<uint32_t>(idx >> 16);
        const auto pkt = rtpPacket(0xdecafbad + static_cast<uint32_t>(n),
                                   96,
                                   static_cast<uint16_t>(idx),
                                   mcu::pattern(c.seed(), 7 + static_cast<uint64_t>(n), static_cast<size_t>(kPayloads[ps])),
                                   ext,
                                   csrc,
                                   pad);
        const auto want = ref.rtp(pkt, roc);

        const bool sent = snd.conn->protectSendMedia(toBuf(pkt), roc, enc);
        c.step();
        c.check(sent, "S01", "protect-failed", "%s: cannot protect payload %d ext %d csrc %d padding %d", pr.name, kPayloads[ps], ext, csrc, pad);
        if (sent) {
            c.check(toBytes(enc) == want, "S01", "wire-format", "%s: payload %d ext %d csrc %d padding %d index %llx: sent %s, RFC says %s", pr.name,
                    kPayloads[ps], ext, csrc, pad, static_cast<unsigned long long>(idx), mcu::hex(toBytes(enc)).c_str(), mcu::hex(want).c_str());
            c.check(enc.size() - pkt.size() == snd.conn->getMediaProtectionOverhead(), "S01", "overhead", "%s: overhead is %zu, claimed %zu", pr.name,
                    enc.size() - pkt.size(), snd.conn->getMediaProtectionOverhead());
        }
        const bool got = rcv.crypto->unprotectReceiveMedia(toBuf(want), roc, dec);
        c.step();
        c.check(got && toBytes(dec) == pkt, "S01", "unprotect", "%s: payload %d ext %d csrc %d padding %d index %llx: accepted %d, decrypted %s, sent %s", pr.name,
                kPayloads[ps], ext, csrc, pad, static_cast<unsigned long long>(idx), got, mcu::hex(toBytes(dec)).c_str(), mcu::hex(pkt).c_str());
        if (roc == 0) {
            const bool got2 = rcv.conn->unprotectReceiveMedia(toBuf(want), dec);
            c.check(got2 && toBytes(dec) == pkt, "S01", "receive", "%s: payload %d ext %d csrc %d padding %d: not received", pr.name, kPayloads[ps], ext, csrc, pad);
        }
        // A packet is only good for the rollover it was sent in
        const bool wrong = rcv.crypto->unprotectReceiveMedia(toBuf(want), roc ^ 1, dec);
        c.check(!wrong, "S02", "wrong-rollover", "%s: accepted with another rollover count", pr.name);
        h = mc::mix(h, mcu::hashBytes(toBytes(enc)));
        c.state(h);
    }
    c.outcome(h);
}

void runControlShapes(mc::Ctx& c, const Profile& pr)
{
    env::reset(c.seed());
    const Keys k(pr, c.seed());
    const auto snd = makeEnd(c, pr, k.keyA, k.saltA, k.keyB, k.saltB);
    const auto rcv = makeEnd(c, pr, k.keyB, k.saltB, k.keyA, k.saltA);
    const RefSender ref(pr, k.keyA, k.saltA);
    const uint32_t indices[] = { 1, 2, 0xffff, 0x10000, 0x7ffffffe, 0x7fffffff };

    ByteBuffer enc, dec;
    uint64_t h = 0;
    const auto idx = indices[c.choose(6, "index")];
    const int ps = c.choose(9, "payload");
    auto pkt = rtcpPacket(0xdecafbad, 200, mcu::pattern(c.seed(), 9, static_cast<size_t>(kPayloads[ps])));
    if (c.flip("compound")) {
        const auto more = rtcpPacket(0xdecafbae, 205, mcu::pattern(c.seed(), 10, static_cast<size_t>(c.choose(4, "second") * 4)));
        pkt.insert(pkt.end(), more.begin(), more.end());
    }
    const auto want = ref.rtcp(pkt, idx);
    const bool sent = snd.conn->protectSendControl(toBuf(pkt), idx, enc);
    c.step();
    c.check(sent && toBytes(enc) == want, "S05", "wire-format", "%s: payload %d index %x: sent %d %s, RFC says %s", pr.name, kPayloads[ps], idx, sent,
            mcu::hex(toBytes(enc)).c_str(), mcu::hex(want).c_str());
    const bool got = rcv.conn->unprotectReceiveControl(toBuf(want), dec);
    c.step();
    c.check(got && toBytes(dec) == pkt, "S05", "receive", "%s: payload %d index %x: accepted %d, decrypted %s, sent %s", pr.name, kPayloads[ps], idx, got,
            mcu::hex(toBytes(dec)).c_str(), mcu::hex(pkt).c_str());
    h = mcu::hashBytes(toBytes(enc));
    const bool again = rcv.conn->unprotectReceiveControl(toBuf(want), dec);
    c.check(!again, "S03", "control-replay", "%s: RTCP index %x accepted twice", pr.name, idx);
    // One which is authenticated but not encrypted is fine too
    if (idx != indices[5]) {
        const auto clear = ref.rtcp(pkt, idx + 1, false);
        const bool ok = rcv.conn->unprotectReceiveControl(toBuf(clear), dec);
        c.check(!ok || toBytes(dec) == pkt, "S05", "clear", "%s: authenticated clear RTCP misread", pr.name);
    }
    c.state(h);
    c.outcome(h);
}

// ----- Histories

struct Stream {
    uint32_t ssrc = 0;
    uint8_t pt = 0;
    bool control = false;
    uint64_t first = 0;
    uint64_t next = 0;              // Next index never sent
    uint64_t newest = 0;            // The newest which was accepted
    std::set<uint64_t> accepted;
};

Bytes genuinePlain(mc::Ctx& c, const Stream& s, uint64_t idx)
{
    if (s.control) {
        return rtcpPacket(s.ssrc, s.pt, mcu::pattern(c.seed(), idx * 4 + 1, 12 + (idx % 3) * 4));
    }
    return rtpPacket(s.ssrc, s.pt, static_cast<uint16_t>(idx), mcu::pattern(c.seed(), idx * 4, 5 + (idx % 20)), (idx % 3) == 0 ? 1 : -1);
}

// The alphabet of one step. The first one is what happens by default.
enum Op {
    kNext,
    kSkip2,
    kSkip300,
    kSkip512,
    kSkip513,
    kSkip3000,
    kSkip20000,
    kSkip32000,
    kLate1,
    kLate2,
    kLate999,
    kLate2047,
    kLate2048,
    kReplayNewest,
    kReplayFirst,
    kOther,         // A packet of the other stream
    kOtherSkip,
    kControl,       // A control packet with the same SSRC
    kReconnect,
    kForgeTag,      // A fresh packet with a wrong tag
    kForgeAhead,    // Wrong sequence numbers
    kForgeWrap,
    kForgeBefore,
    kForgeHalf,
    kForgeOther,    // Wrong SSRC, not seen yet
    kForgeControl,
    kForgeReplay,   // Something already accepted, in another stream
    kOpCount,
};

const char* const kOpNames[] = { "next",       "skip-2",      "skip-300",     "skip-512",     "skip-513",    "skip-3000",     "skip-20000",
                                 "skip-32000", "late-1",      "late-2",       "late-999",     "late-2047",   "late-2048",     "replay-newest",
                                 "replay-first", "other",     "other-skip",   "control",      "reconnect",   "forge-tag",     "forge-ahead",
                                 "forge-wrap", "forge-before", "forge-half",  "forge-other",  "forge-control", "forge-replay" };

struct History {
    const Profile& pr;
    uint64_t start;         // Index of the first packet of the main stream
    uint64_t otherStart;
    int steps;
    bool forge;             // Whether forged packets are part of the alphabet
    bool control;           // Whether the main stream is RTCP
    uint8_t pt;
};

void runHistory(mc::Ctx& c, const History& hs)
{
    env::reset(c.seed());
    const auto& pr = hs.pr;
    const Keys k(pr, c.seed());
    const auto rcv = makeEnd(c, pr, k.keyB, k.saltB, k.keyA, k.saltA);
    // The same one without the forged packets
    const auto clean = makeEnd(c, pr, k.keyB, k.saltB, k.keyA, k.saltA);
    const RefSender ref(pr, k.keyA, k.saltA);

    Stream a, b, ctl;
    a.ssrc = 0x80000001u;
    a.pt = hs.pt;
    a.control = hs.control;
    a.next = a.first = hs.start;
    b.ssrc = 0x80000002u;
    b.pt = static_cast<uint8_t>(hs.pt + 1);
    b.control = hs.control;
    b.next = b.first = hs.otherStart;
    ctl.ssrc = a.ssrc;
    ctl.pt = 200;
    ctl.control = !hs.control;
    if (!ctl.control) {
        ctl.pt = 0;
    }
    ctl.next = ctl.first = 1;

    const char* propOk = hs.control ? "S05" : "S01";
    bool forged = false;
    uint64_t h = 0;

    const auto wire = [&](const Stream& s, uint64_t idx) {
        const auto p = genuinePlain(c, s, idx);
        return s.control ? ref.rtcp(p, static_cast<uint32_t>(idx)) : ref.rtp(p, static_cast<uint32_t>(idx >> 16));
    };
    const auto receive = [](const End& e, bool control, const Bytes& w, Bytes& out) {
        ByteBuffer dec;
        const bool ok = control ? e.conn->unprotectReceiveControl(toBuf(w), dec) : e.conn->unprotectReceiveMedia(toBuf(w), dec);
        out = ok ? toBytes(dec) : Bytes{};
        return ok;
    };
    const auto genuine = [&](Stream& s, uint64_t idx) {
        if (s.accepted.empty() && idx > 0xffff) {
            // Nothing can tell a receiver the rollover count of the first packet
            return;
        }
        const auto w = wire(s, idx);
        Bytes out, outClean;
        const bool ok = receive(rcv, s.control, w, out);
        const bool okClean = receive(clean, s.control, w, outClean);
        c.step();
        c.log("  %s %08x index %llu: %s", s.control ? "RTCP" : "RTP", s.ssrc, static_cast<unsigned long long>(idx), ok ? "accepted" : "refused");
        h = mc::mix(mc::mix(h, idx), static_cast<uint64_t>(ok * 2 + s.control));
        if (forged) {
            c.check(ok == okClean && out == outClean, "S02", "trace", "%s: index %llu is %s, but %s without the forged packets", pr.name,
                    static_cast<unsigned long long>(idx), ok ? "accepted" : "refused", okClean ? "accepted" : "refused");
        }
        const bool seen = s.accepted.count(idx) != 0;
        const bool inWindow = s.accepted.empty() || idx + kWindow > s.newest;
        if (seen) {
            c.check(!okClean, "S03", s.control ? "control-replay" : "replay", "%s: %s index %llu accepted twice", pr.name, s.control ? "RTCP" : "RTP",
                    static_cast<unsigned long long>(idx));
        } else if (inWindow) {
            c.check(okClean, "S03", "fresh-refused", "%s: fresh %s index %llu refused, newest accepted is %llu", pr.name, s.control ? "RTCP" : "RTP",
                    static_cast<unsigned long long>(idx), static_cast<unsigned long long>(s.newest));
            c.check(okClean, s.control ? "S05" : "S01", "refused", "%s: %s index %llu refused, newest accepted is %llu", pr.name, s.control ? "RTCP" : "RTP",
                    static_cast<unsigned long long>(idx), static_cast<unsigned long long>(s.newest));
        }
        if (okClean) {
            c.check(outClean == genuinePlain(c, s, idx), s.control ? "S05" : "S01", "wrong-bytes", "%s: index %llu decrypted to %s", pr.name,
                    static_cast<unsigned long long>(idx), mcu::hex(outClean).c_str());
            s.accepted.insert(idx);
            s.newest = std::max(s.newest, idx);
        }
        s.next = std::max(s.next, idx + 1);
    };
    const auto forgery = [&](bool control, const Bytes& w) {
        // Changing the sequence number may by chance have put the same one there
        if (w == wire(a, a.next) || w == wire(ctl, ctl.next)) {
            return;
        }
        forged = true;
        Bytes out;
        const bool ok = receive(rcv, control, w, out);
        c.step();
        c.log("  forged %s %s: %s", control ? "RTCP" : "RTP", mcu::hex(w, 16).c_str(), ok ? "accepted" : "refused");
        c.check(!ok, "S02", "forged-accepted", "%s: forged packet accepted: %s", pr.name, mcu::hex(w).c_str());
    };
    const auto setSeq = [&](Bytes w, bool control, uint32_t v) {
        if (!control) {
            w[2] = static_cast<uint8_t>(v >> 8);
            w[3] = static_cast<uint8_t>(v);
        } else {
            const size_t at = w.size() - (pr.gcm ? 4 : 14);
            v |= 0x80000000u;
            for (int i = 0; i < 4; i += 1) {
                w[at + static_cast<size_t>(i)] = static_cast<uint8_t>(v >> (24 - 8 * i));
            }
        }
        return w;
    };

    const int nOps = hs.forge ? kOpCount : kForgeTag;
    for (int step = 0; step < hs.steps; step += 1) {
        const int op = c.deviate(nOps, "op");
        c.log("step %d: %s", step, kOpNames[op]);
        const auto late = [&](uint64_t d) {
            if (a.newest >= a.first + d) {
                genuine(a, a.newest - d);
            }
        };
        switch (op) {
        case kNext:
            genuine(a, a.next);
            break;
        case kSkip2:
            genuine(a, a.next + 1);
            break;
        case kSkip300:
            genuine(a, a.next + 299);
            break;
        case kSkip512:
            genuine(a, a.next + 511);
            break;
        case kSkip513:
            genuine(a, a.next + 512);
            break;
        case kSkip3000:
            genuine(a, a.next + 2999);
            break;
        case kSkip20000:
            genuine(a, a.next + 19999);
            break;
        case kSkip32000:
            genuine(a, a.next + 31999);
            break;
        case kLate1:
            late(1);
            break;
        case kLate2:
            late(2);
            break;
        case kLate999:
            late(999);
            break;
        case kLate2047:
            late(2047);
            break;
        case kLate2048:
            late(2048);
            break;
        case kReplayNewest:
            if (!a.accepted.empty()) {
                genuine(a, a.newest);
            }
            break;
        case kReplayFirst:
            if (!a.accepted.empty()) {
                genuine(a, *a.accepted.begin());
            }
            break;
        case kOther:
            genuine(b, b.next);
            break;
        case kOtherSkip:
            genuine(b, b.next + 400);
            break;
        case kControl:
            genuine(ctl, ctl.next);
            break;
        case kReconnect:
            rcv.conn->onPeerConnected();
            clean.conn->onPeerConnected();
            break;
        case kForgeTag: {
            auto w = wire(a, a.next);
            w[w.size() - (a.control && pr.gcm ? 5 : 1)] ^= 0x40;
            forgery(a.control, w);
            break;
        }
        case kForgeAhead:
            forgery(a.control, setSeq(wire(a, a.next), a.control, static_cast<uint32_t>(a.next + 500)));
            break;
        case kForgeWrap:
            forgery(a.control, setSeq(wire(a, a.next), a.control, static_cast<uint32_t>((a.next | 0xffff) + 3)));
            break;
        case kForgeBefore:
            forgery(a.control, setSeq(wire(a, a.next), a.control, static_cast<uint32_t>((a.next & ~0xffffull) + 0xfff0)));
            break;
        case kForgeHalf:
            forgery(a.control, setSeq(wire(a, a.next), a.control, static_cast<uint32_t>(a.next + 0x7ff0)));
            break;
        case kForgeOther: {
            // The SSRC of the other stream, as if it were its first
            auto w = wire(a, a.next);
            w[a.control ? 7 : 11] = 2;
            if (!a.control) {
                w[1] = b.pt;
                w = setSeq(w, false, static_cast<uint32_t>(b.next + 0x6000));
            }
            forgery(a.control, w);
            break;
        }
        case kForgeControl: {
            auto w = wire(ctl, ctl.next);
            w[w.size() - (ctl.control && pr.gcm ? 5 : 1)] ^= 1;
            forgery(ctl.control, setSeq(w, ctl.control, static_cast<uint32_t>(ctl.next + 100)));
            break;
        }
        case kForgeReplay:
            if (!a.accepted.empty()) {
                auto w = wire(a, a.newest);
                w[a.control ? 7 : 11] = 2;
                forgery(a.control, w);
            }
            break;
        default:
            break;
        }
        c.state(h);
    }
    // In the end, everything that is fresh is still accepted
    c.log("the end");
    genuine(a, a.next);
    genuine(b, b.next);
    genuine(ctl, ctl.next);
    if (a.next > a.first + 1200 && a.accepted.count(a.newest - 1001) == 0) {
        genuine(a, a.newest - 1001);
    }
    (void)propOk;
    c.outcome(h);
}

// ----- Every single bit flip, truncation and extension of representative packets

void runTamper(mc::Ctx& c, const Profile& pr, bool control)
{
    env::reset(c.seed());
    const Keys k(pr, c.seed());
    const auto rcv = makeEnd(c, pr, k.keyB, k.saltB, k.keyA, k.saltA);
    const RefSender ref(pr, k.keyA, k.saltA);
    const auto receive = [&](const Bytes& w, Bytes& out) {
        ByteBuffer dec;
        const bool ok = control ? rcv.conn->unprotectReceiveControl(toBuf(w), dec) : rcv.conn->unprotectReceiveMedia(toBuf(w), dec);
        out = ok ? toBytes(dec) : Bytes{};
        c.step();
        return ok;
    };
    // Just before and just after a rollover
    const uint64_t positions[] = { 100, 65534, 65535 };
    const uint64_t base = positions[c.choose(control ? 1 : 3, "position")];
    const auto plain = [&](uint64_t i) {
        const auto idx = base + i;
        if (control) {
            auto p = rtcpPacket(0x71000001, 200, mcu::pattern(c.seed(), idx, 20));
            if (i == 1) {
                const auto q = rtcpPacket(0x71000001, 205, mcu::pattern(c.seed(), idx + 99, 8));
                p.insert(p.end(), q.begin(), q.end());
            }
            return p;
        }
        return rtpPacket(0x71000001, 96, static_cast<uint16_t>(idx), mcu::pattern(c.seed(), idx, 19), i == 1 ? 2 : -1, 0, i == 1 ? 3 : 0);
    };
    const auto wire = [&](uint64_t i) {
        return control ? ref.rtcp(plain(i), static_cast<uint32_t>(base + i)) : ref.rtp(plain(i), static_cast<uint32_t>((base + i) >> 16));
    };

    Bytes out;
    const bool first = c.flip("after a genuine one");
    if (first || base + 1 >= 0x10000) {
        c.check(receive(wire(0), out) && out == plain(0), control ? "S05" : "S01", "refused", "%s: first packet refused", pr.name);
    }
    const auto w = wire(1);
    const int kind = c.choose(4, "kind");
    Bytes t = w;
    switch (kind) {
    case 0: {
        const int bit = c.choose(static_cast<int>(w.size()) * 8, "bit");
        t[static_cast<size_t>(bit / 8)] ^= static_cast<uint8_t>(1 << (bit % 8));
        break;
    }
    case 1:
        t.resize(static_cast<size_t>(c.choose(static_cast<int>(w.size()), "truncate")));
        break;
    case 2: {
        const int n = c.choose(8, "append");
        for (int i = 0; i <= n; i += 1) {
            t.push_back(static_cast<uint8_t>(i * 17));
        }
        break;
    }
    default: {
        // A byte removed from the middle, or the tag removed, or zeroed
        const int at = c.choose(static_cast<int>(w.size()), "byte");
        t.erase(t.begin() + at);
        if (t == Bytes(w.begin(), w.end() - 1)) {
            t.pop_back();
        }
        break;
    }
    }
    c.log("kind %d: %s", kind, mcu::hex(t, 80).c_str());
    const bool bad = receive(t, out);
    c.check(!bad, "S02", "tampered-accepted", "%s: altered packet (kind %d) accepted", pr.name, kind);
    // Again, so that what it left behind would matter
    const bool bad2 = receive(t, out);
    c.check(!bad2, "S02", "tampered-accepted", "%s: altered packet (kind %d) accepted", pr.name, kind);
    const bool ok1 = receive(w, out);
    c.check(ok1 && out == plain(1), "S02", "trace", "%s: the genuine packet is refused after an altered one (kind %d)", pr.name, kind);
    const bool ok2 = receive(wire(2), out);
    c.check(ok2 && out == plain(2), "S02", "trace", "%s: the next packet is refused after an altered one (kind %d)", pr.name, kind);
    if (!(first || base + 1 >= 0x10000)) {
        const bool ok0 = receive(wire(0), out);
        c.check(ok0 && out == plain(0), "S02", "trace", "%s: a late packet is refused after an altered one (kind %d)", pr.name, kind);
    }
    const auto h = mc::mix(mcu::hashBytes(t), ok1 * 2 + ok2);
    c.state(h);
    c.outcome(h);
}

// Garbage of every length, with every first byte
void runGarbage(mc::Ctx& c, const Profile& pr)
{
    env::reset(c.seed());
    const Keys k(pr, c.seed());
    const auto rcv = makeEnd(c, pr, k.keyB, k.saltB, k.keyA, k.saltA);
    const RefSender ref(pr, k.keyA, k.saltA);
    const int n = c.choose(48, "length");
    const int fill = c.choose(4, "fill");
    Bytes g(static_cast<size_t>(n), fill == 0 ? 0 : fill == 1 ? 0xff : 0x80);
    if (fill == 3) {
        g = mcu::pattern(c.seed(), 77, static_cast<size_t>(n));
    }
    for (int first = 0; first < 256; first += 1) {
        if (n > 0) {
            g[0] = static_cast<uint8_t>(first);
        }
        ByteBuffer dec;
        const bool ok = rcv.conn->unprotectReceiveMedia(toBuf(g), dec);
        const bool ok2 = rcv.conn->unprotectReceiveControl(toBuf(g), dec);
        c.step(2);
        c.check(!ok && !ok2, "S02", "garbage-accepted", "%s: garbage accepted: %s", pr.name, mcu::hex(g).c_str());
    }
    const auto p = rtpPacket(get32(Bytes(12, 0x80), 8), 0, 0x8081, mcu::pattern(c.seed(), 1, 30));
    ByteBuffer dec;
    const bool ok = rcv.conn->unprotectReceiveMedia(toBuf(ref.rtp(p, 0)), dec);
    c.check(ok && toBytes(dec) == p, "S02", "trace", "%s: a genuine packet is refused after garbage", pr.name);
    c.state(mcu::hashBytes(g));
    c.outcome(mcu::hashBytes(g));
}

// ----- The replay window alone, every sequence of operations up to a depth

void runReplay(mc::Ctx& c, uint32_t maxValue, uint32_t size, uint32_t start, int depth)
{
    env::reset(c.seed());
    ReplayProtection rp(maxValue, size);
    const int64_t quarter = size / 4;
    const int64_t moves[] = { 1, 2, quarter - 1, quarter, 0, -1, -2, -quarter, -(int64_t(size) - 2), -(int64_t(size) - 1), -int64_t(size), 3 };
    std::set<int64_t> seen;
    int64_t newest = start;
    uint64_t h = 0;
    const auto value = [&](int64_t v) { return static_cast<uint32_t>(v & int64_t(maxValue)); };
    seen.insert(newest);
    c.check(rp.canProceed(value(newest)), "S03", "window-first", "first value refused");
    c.check(rp.set(value(newest)), "S03", "window-first", "first value not set");
    for (int i = 0; i < depth; i += 1) {
        const int64_t v = newest + moves[c.choose(12, "move")];
        const bool got = rp.canProceed(value(v));
        c.step();
        c.log("%lld (newest %lld, size %u): %d", static_cast<long long>(v), static_cast<long long>(newest), size, got);
        const bool want = newest - v < int64_t(size) && seen.count(v) == 0;
        c.check(got || !want, "S03", "window-fresh-refused", "size %u: fresh value %u refused, newest %u", size, value(v), value(newest));
        c.check(!got || want, "S03", "window-replay", "size %u: value %u accepted, newest %u, seen %d", size, value(v), value(newest), static_cast<int>(seen.count(v)));
        if (got) {
            c.check(rp.set(value(v)), "S03", "window-set", "value %u may proceed but cannot be set", value(v));
            seen.insert(v);
            newest = std::max(newest, v);
        }
        h = mc::mix(mc::mix(h, static_cast<uint64_t>(v)), got);
        c.state(h);
    }
    c.outcome(h);
}

// ----- From the packet source through three rollovers

void runSource(mc::Ctx& c, const Profile& pr)
{
    env::reset(c.seed());
    static uint32_t sStart;
    const uint32_t starts[] = { 0, 0x40000000u, 0x80000000u, 0xffffffffu };
    sStart = starts[c.choose(4, "random start")];
    env::randomHook = [] { return sStart; };
    const Keys k(pr, c.seed());
    const auto snd = makeEnd(c, pr, k.keyA, k.saltA, k.keyB, k.saltB);
    const auto rcv = makeEnd(c, pr, k.keyB, k.saltB, k.keyA, k.saltA);
    mcu::TrackSpec ts;
    ts.ssrc = 0x10002000;
    const auto track = mcu::makeTrack(ts);
    RtpPacketSource source(ts.ssrc, ts.pt);
    env::randomHook = nullptr;

    // Loss: one packet of every n is lost, and whether pairs are swapped
    const int lossEvery[] = { 0, 2, 7, 1000 };
    const int loss = lossEvery[c.choose(4, "loss")];
    const bool swap = c.flip("swap");
    const int total = c.thorough() ? 200'000 : 70'000 + 65'536;
    Bytes held, heldPlain;
    std::optional<uint64_t> last;
    ByteBuffer enc, dec;
    int received = 0;
    const auto deliver = [&](const Bytes& w, const Bytes& p) {
        const bool ok = rcv.conn->unprotectReceiveMedia(toBuf(w), dec);
        if (!(ok && toBytes(dec) == p)) {
            c.check(false, "S01", "refused", "%s: packet with sequence %u refused, %d accepted so far", pr.name, (p[2] << 8) | p[3], received);
            c.abandon();
        }
        received += 1;
    };
    for (int i = 0; i < total; i += 1) {
        const auto [roc, seq] = source.getNextSequence();
        const uint64_t index = (uint64_t(roc) << 16) | seq;
        if (last) {
            c.check(index == *last + 1, "S01", "source-index", "index %llx follows %llx", static_cast<unsigned long long>(index),
                    static_cast<unsigned long long>(*last));
            c.check(index > *last, "S04", "source-index", "index %llx follows %llx", static_cast<unsigned long long>(index),
                    static_cast<unsigned long long>(*last));
        } else {
            c.check(roc == 0, "S01", "source-start", "the first packet has rollover %u", roc);
        }
        last = index;
        if (loss > 0 && i % loss == 1) {
            continue;
        }
        // Everything around a rollover, a sample of the long way between them
        const auto away = std::min<uint32_t>(seq, 65535u - seq);
        if (away > 600 && i % 97 != 0) {
            continue;
        }
        RtpPacket packet(track, false, roc, seq, 1000u + static_cast<uint32_t>(i), 0, toBuf({ 1, 2, 3, static_cast<uint8_t>(i) }));
        const auto out = packet.generate();
        c.check(out.rollover == roc, "S01", "packet-rollover", "the packet has rollover %u", out.rollover);
        const auto plain = toBytes(out.buf);
        c.check(snd.conn->protectSendMedia(out.buf, out.rollover, enc), "S01", "protect-failed", "cannot protect");
        c.step();
        const auto w = toBytes(enc);
        if (swap && held.empty()) {
            held = w;
            heldPlain = plain;
            continue;
        }
        deliver(w, plain);
        if (!held.empty()) {
            deliver(held, heldPlain);
            held.clear();
        }
    }
    c.state(static_cast<uint64_t>(received));
    c.outcome(static_cast<uint64_t>(received));
}

} // namespace

namespace mc
{

void registerScenarios(bool thorough)
{
    env::quiet();
    for (const auto& pr : kProfiles) {
        const std::string n = pr.name;
        add("shapes-" + n, { "S01", "S02" }, 0, 0, [&pr](Ctx& c) { runShapes(c, pr); });
        add("control-shapes-" + n, { "S05", "S03" }, 0, 0, [&pr](Ctx& c) { runControlShapes(c, pr); });
        add("tamper-" + n, { "S02", "S01" }, 0, 0, [&pr](Ctx& c) { runTamper(c, pr, false); });
        add("tamper-control-" + n, { "S02", "S05" }, 0, 0, [&pr](Ctx& c) { runTamper(c, pr, true); });
        add("garbage-" + n, { "S02" }, 0, 0, [&pr](Ctx& c) { runGarbage(c, pr); });
        add("source-" + n, { "S01" }, 0, 0, [&pr](Ctx& c) { runSource(c, pr); }, false, 60);
    }
    // Where in the sequence number space the history takes place
    const struct {
        const char* name;
        uint64_t start, other;
        int profile;
        uint8_t pt;
    } places[] = {
        { "zero", 1, 30'001, 0, 96 },          { "middle", 30'001, 65'534, 2, 0 },  { "near", 65'533, 1, 1, 97 },
        { "edge", 65'535, 65'300, 3, 96 },     { "before", 0xEFFE, 65'530, 0, 96 }, { "far", 64'900, 0xF000, 2, 126 },
        { "cm32-near", 65'531, 64'000, 3, 8 },
    };
    for (const auto& p : places) {
        const bool deep = !strcmp(p.name, "near");
        const History a{ kProfiles[p.profile], p.start, p.other, thorough ? 8 : 7, false, false, p.pt };
        add(std::string("history-") + p.name, { "S01", "S03" }, deep ? 3 : 2, deep ? 4 : 3, [a](Ctx& c) { runHistory(c, a); });
        const History f{ kProfiles[p.profile], p.start, p.other, 5, true, false, p.pt };
        add(std::string("forged-") + p.name, { "S02" }, deep ? 3 : 2, deep ? 4 : 3, [f](Ctx& c) { runHistory(c, f); });
    }
    for (int i = 0; i < 4; i += 1) {
        const auto& pr = kProfiles[i];
        const History a{ pr, i == 1 ? 0x7000'0000ull : i == 2 ? 65'530ull : 1ull, 1, thorough ? 8 : 7, false, true, 200 };
        add(std::string("control-history-") + pr.name, { "S05", "S03" }, i == 0 ? 3 : 2, i == 0 ? 4 : 3, [a](Ctx& c) { runHistory(c, a); });
        const History f{ pr, i == 2 ? 65'530ull : 1ull, 5, 5, true, true, 201 };
        add(std::string("control-forged-") + pr.name, { "S02" }, i == 1 ? 3 : 2, i == 1 ? 4 : 3, [f](Ctx& c) { runHistory(c, f); });
    }
    const int depth = thorough ? 6 : 5;
    const struct {
        uint32_t max, size, start;
    } windows[] = {
        { 0xffff, 64, 1000 }, { 0xffff, 64, 65'530 }, { 0xffff, 2048, 65'535 }, { 0xffff, 128, 40 }, { 0xffffffff, 64, 0xfffffff8u }, { 0xffffffff, 2048, 3 },
        { 0xffff, 2048, 32'760 },
    };
    for (const auto& w : windows) {
        add("window-" + std::to_string(w.max == 0xffff ? 16 : 32) + "-" + std::to_string(w.size) + "-" + std::to_string(w.start),
            { "S03" },
            0,
            0,
            [=](Ctx& c) { runReplay(c, w.max, w.size, w.start, depth); });
    }
}

} // namespace mc
