// An independent builder and checker of STUN messages (RFC 5389, RFC 8445)
#pragma once

#include "util_mc.h"

#include <openssl/evp.h>
#include <openssl/hmac.h>

#include <optional>
#include <string>
#include <vector>

namespace st
{

using mcu::Bytes;

enum : uint16_t {
    kRequest = 0x0001,
    kIndication = 0x0011,
    kResponse = 0x0101,
    kError = 0x0111,

    kMapped = 0x0001,
    kUsername = 0x0006,
    kIntegrity = 0x0008,
    kErrorCode = 0x0009,
    kXorMapped = 0x0020,
    kPriority = 0x0024,
    kUseCandidate = 0x0025,
    kSoftware = 0x8022,
    kFingerprint = 0x8028,
    kControlled = 0x8029,
    kControlling = 0x802a,
};

inline uint32_t crc32(const uint8_t* p, size_t n)
{
    uint32_t crc = 0xffffffff;
    for (size_t i = 0; i < n; i += 1) {
        crc ^= p[i];
        for (int b = 0; b < 8; b += 1) {
            crc = (crc >> 1) ^ (0xedb88320u & (0u - (crc & 1u)));
        }
    }
    return ~crc;
}

inline Bytes hmacSha1(const std::string& key, const Bytes& data)
{
    Bytes r(20);
    unsigned int n = 20;
    // An empty key is not the same as no key
    static const uint8_t none[1] = {};
    HMAC(EVP_sha1(),
         key.empty() ? static_cast<const void*>(none) : key.data(),
         static_cast<int>(key.size()),
         data.data(),
         data.size(),
         r.data(),
         &n);
    return r;
}

inline uint16_t get16(const Bytes& b, size_t at)
{
    return static_cast<uint16_t>(b[at] << 8 | b[at + 1]);
}

inline void set16(Bytes& b, size_t at, uint16_t v)
{
    b[at] = static_cast<uint8_t>(v >> 8);
    b[at + 1] = static_cast<uint8_t>(v);
}

inline void setLength(Bytes& m, size_t total)
{
    set16(m, 2, static_cast<uint16_t>(total - 20));
}

inline Bytes header(uint16_t type, const Bytes& id12)
{
    Bytes m(20);
    set16(m, 0, type);
    m[4] = 0x21;
    m[5] = 0x12;
    m[6] = 0xa4;
    m[7] = 0x42;
    std::copy(id12.begin(), id12.end(), m.begin() + 8);
    return m;
}

inline void attr(Bytes& m, uint16_t type, const Bytes& value)
{
    const auto at = m.size();
    m.resize(at + 4);
    set16(m, at, type);
    set16(m, at + 2, static_cast<uint16_t>(value.size()));
    m.insert(m.end(), value.begin(), value.end());
    while (m.size() % 4 != 0) {
        m.push_back(0);
    }
    setLength(m, m.size());
}

inline void attr(Bytes& m, uint16_t type, const std::string& value)
{
    attr(m, type, Bytes(value.begin(), value.end()));
}

inline Bytes macOf(const Bytes& m, size_t at, const std::string& password)
{
    Bytes prefix(m.begin(), m.begin() + static_cast<long>(at));
    setLength(prefix, at + 24);
    return hmacSha1(password, prefix);
}

inline void integrity(Bytes& m, const std::string& password)
{
    attr(m, kIntegrity, macOf(m, m.size(), password));
}

inline Bytes crcOf(const Bytes& m, size_t at)
{
    Bytes prefix(m.begin(), m.begin() + static_cast<long>(at));
    setLength(prefix, at + 8);
    const auto crc = crc32(prefix.data(), prefix.size()) ^ 0x5354554e;
    return { static_cast<uint8_t>(crc >> 24),
             static_cast<uint8_t>(crc >> 16),
             static_cast<uint8_t>(crc >> 8),
             static_cast<uint8_t>(crc) };
}

inline void fingerprint(Bytes& m)
{
    attr(m, kFingerprint, crcOf(m, m.size()));
}

struct Attr {
    uint16_t type;
    size_t at; // of the attribute's header
    size_t len;
    Bytes value;
};

struct Parsed {
    bool wellFormed = false; // the attributes fill the message exactly
    uint16_t type = 0;
    size_t length = 0; // with the header, as it says
    Bytes id;          // with the cookie
    std::vector<Attr> attrs; // as many as can be read

    [[nodiscard]] const Attr* first(uint16_t t) const
    {
        for (const auto& a : attrs) {
            if (a.type == t) {
                return &a;
            }
        }
        return nullptr;
    }
    [[nodiscard]] int count(uint16_t t) const
    {
        int n = 0;
        for (const auto& a : attrs) {
            n += a.type == t;
        }
        return n;
    }
};

inline Parsed parse(const Bytes& m)
{
    Parsed r;
    if (m.size() < 20) {
        return r;
    }
    r.type = get16(m, 0);
    r.length = 20u + get16(m, 2);
    r.id = Bytes(m.begin() + 4, m.begin() + 20);
    size_t at = 20;
    const auto end = std::min(r.length, m.size());
    while (at + 4 <= end) {
        const size_t len = get16(m, at + 2);
        const auto padded = (len + 3) & ~static_cast<size_t>(3);
        if (at + 4 + len > end) {
            return r;
        }
        r.attrs.push_back({ get16(m, at),
                            at,
                            len,
                            Bytes(m.begin() + static_cast<long>(at) + 4, m.begin() + static_cast<long>(at + 4 + len)) });
        at += 4 + padded;
    }
    r.wellFormed = at == r.length && r.length <= m.size();
    return r;
}

// What any receiver following the standard accepts
inline bool strictlyGood(const Bytes& m, const std::optional<std::string>& username, const std::string& password)
{
    const auto p = parse(m);
    if (!p.wellFormed || p.length != m.size() || p.length % 4 != 0 || p.attrs.size() < 2) {
        return false;
    }
    const auto& fpr = p.attrs.back();
    const auto& mac = p.attrs[p.attrs.size() - 2];
    if (fpr.type != kFingerprint || fpr.value != crcOf(m, fpr.at) || mac.type != kIntegrity ||
        mac.value != macOf(m, mac.at, password) || p.count(kFingerprint) != 1 || p.count(kIntegrity) != 1) {
        return false;
    }
    if (username) {
        const auto u = p.first(kUsername);
        if (!u || p.count(kUsername) != 1 || std::string(u->value.begin(), u->value.end()) != *username) {
            return false;
        }
    }
    return true;
}

// What no receiver may accept does not fulfil this. Empty if it does, or the reason.
inline std::string unacceptable(const Bytes& m, const std::optional<std::string>& username, const std::string& password)
{
    const auto p = parse(m);
    if (m.size() < 20 || p.length > m.size()) {
        return "longer than the datagram";
    }
    const auto mac = p.first(kIntegrity);
    const auto fpr = p.first(kFingerprint);
    if (!mac || mac->len != 20) {
        return "no message integrity";
    }
    if (!fpr || fpr->len != 4) {
        return "no fingerprint";
    }
    if (mac->value != macOf(m, mac->at, password)) {
        return "wrong message integrity";
    }
    if (fpr->value != crcOf(m, fpr->at)) {
        // ... or taken over the whole message but its last eight bytes
        Bytes prefix(m.begin(), m.begin() + static_cast<long>(p.length));
        const auto crc = crc32(prefix.data(), prefix.size() - 8) ^ 0x5354554e;
        const Bytes other = { static_cast<uint8_t>(crc >> 24),
                              static_cast<uint8_t>(crc >> 16),
                              static_cast<uint8_t>(crc >> 8),
                              static_cast<uint8_t>(crc) };
        if (fpr->value != other) {
            return "wrong fingerprint";
        }
    }
    if (username) {
        const auto u = p.first(kUsername);
        if (!u || u->at > mac->at) {
            return "no user name under the message integrity";
        }
        if (std::string(u->value.begin(), u->value.end()) != *username) {
            return "wrong user name";
        }
    }
    return "";
}

// XOR-MAPPED-ADDRESS for IPv4
inline Bytes xorMapped4(const uint8_t ip[4], uint16_t port)
{
    const uint8_t cookie[4] = { 0x21, 0x12, 0xa4, 0x42 };
    Bytes v = { 0, 1, static_cast<uint8_t>((port >> 8) ^ 0x21), static_cast<uint8_t>((port & 0xff) ^ 0x12) };
    for (int i = 0; i < 4; i += 1) {
        v.push_back(ip[i] ^ cookie[i]);
    }
    return v;
}

} // namespace st
