#pragma once

#include "mc.h"
#include "env.h"

#include "srtc/byte_buffer.h"
#include "srtc/media.h"
#include "srtc/srtc.h"
#include "srtc/track.h"

#include <memory>
#include <string>
#include <vector>

namespace mcu
{

using Bytes = std::vector<uint8_t>;

inline srtc::ByteBuffer toBuf(const Bytes& b)
{
    return { b.data(), b.size() };
}

inline Bytes toBytes(const srtc::ByteBuffer& b)
{
    if (b.size() == 0) {
        return {};
    }
    return { b.data(), b.data() + b.size() };
}

inline uint64_t hashBytes(const Bytes& b, uint64_t h = 1469598103934665603ull)
{
    return mc::hash_bytes(b.data(), b.size(), h);
}

inline std::string hex(const uint8_t* p, size_t n, size_t max = 48)
{
    std::string r;
    char buf[4];
    for (size_t i = 0; i < n && i < max; i += 1) {
        snprintf(buf, sizeof(buf), "%02x", p[i]);
        r += buf;
    }
    if (n > max) {
        r += "...(" + std::to_string(n) + ")";
    }
    return r;
}

inline std::string hex(const Bytes& b, size_t max = 48)
{
    return hex(b.data(), b.size(), max);
}

// Deterministic content: depends on the seed, a tag and the position
inline uint8_t pat(uint64_t seed, uint64_t tag, size_t i)
{
    uint64_t h = mc::mix(mc::mix(seed, tag + 1), i / 8 + 17);
    return static_cast<uint8_t>(h >> ((i % 8) * 8));
}

inline Bytes pattern(uint64_t seed, uint64_t tag, size_t n)
{
    Bytes b(n);
    for (size_t i = 0; i < n; i += 1) {
        b[i] = pat(seed, tag, i);
    }
    return b;
}

// A copy in a heap block of exactly the right size, so that the sanitizer sees any read outside
class Exact
{
public:
    explicit Exact(const Bytes& b)
        : mSize(b.size())
        , mData(new uint8_t[b.size()])
    {
        if (!b.empty()) {
            memcpy(mData.get(), b.data(), b.size());
        }
    }
    [[nodiscard]] const uint8_t* data() const
    {
        return mData.get();
    }
    [[nodiscard]] size_t size() const
    {
        return mSize;
    }

private:
    size_t mSize;
    std::unique_ptr<uint8_t[]> mData;
};

struct TrackSpec {
    srtc::MediaType type = srtc::MediaType::Video;
    srtc::Codec codec = srtc::Codec::VP8;
    uint32_t ssrc = 0x11223344;
    uint8_t pt = 96;
    uint32_t rtxSsrc = 0;
    uint8_t rtxPt = 0;
    uint32_t clock = 90000;
    bool nack = true;
    bool pli = true;
    srtc::Direction dir = srtc::Direction::Publish;
    srtc::ExtensionMap ext;
    std::shared_ptr<srtc::Media> media;
    std::shared_ptr<srtc::Track::SimulcastLayer> layer;
};

inline std::shared_ptr<srtc::Track> makeTrack(const TrackSpec& s)
{
    auto media = s.media ? s.media : std::make_shared<srtc::Media>("0", s.type, s.ext);
    srtc::TrackBuilder b(media, s.dir, s.ssrc, s.pt, s.clock);
    if (s.rtxSsrc) {
        b.rtx(s.rtxSsrc, s.rtxPt);
    }
    b.codec(s.codec, nullptr).nack(s.nack).pli(s.pli);
    if (s.layer) {
        b.simulcastLayer(s.layer);
    }
    return b.build();
}

} // namespace mcu
