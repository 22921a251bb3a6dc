// Media payloads and bitstreams as anyone may make them: every short byte string over significant values, through the
// depacketizers, the jitter buffer and the bitstream parsers, each input in a buffer of its exact size.
#include "util_mc.h"

#include "srtc/bit_reader.h"
#include "srtc/codec_av1.h"
#include "srtc/codec_h264.h"
#include "srtc/codec_h265.h"
#include "srtc/codec_vp9.h"
#include "srtc/depacketizer.h"
#include "srtc/encoded_frame.h"
#include "srtc/jitter_buffer.h"
#include "srtc/jitter_buffer_item.h"
#include "srtc/packetizer.h"
#include "srtc/rtp_extension_source.h"
#include "srtc/rtp_packet.h"

#include <optional>

using namespace srtc;
using mcu::Bytes;
using mcu::toBuf;
using mcu::toBytes;

namespace
{

const uint8_t kStart[] = { 0, 0, 0, 1 };

std::string describe(const std::vector<Bytes>& list)
{
    std::string r;
    for (const auto& b : list) {
        r += (r.empty() ? "" : " | ") + (b.size() <= 40 ? mcu::hex(b) : mcu::hex(Bytes(b.begin(), b.begin() + 40)) + "..");
    }
    return r;
}

// ----- Reference: which units can come out of a list of payloads

void referenceNalus(const std::vector<Bytes>& packets, bool h265, std::vector<Bytes>& out)
{
    const size_t hdr = h265 ? 2 : 1;
    std::optional<Bytes> fu;
    for (const auto& p : packets) {
        if (p.size() < hdr) {
            continue;
        }
        const int type = h265 ? (p[0] >> 1) & 63 : p[0] & 31;
        if (type == (h265 ? 48 : 24)) {
            size_t i = hdr;
            while (i + 2 <= p.size()) {
                const size_t n = static_cast<size_t>(p[i] << 8 | p[i + 1]);
                i += 2;
                if (n == 0 || n > p.size() - i) {
                    break;
                }
                out.emplace_back(p.begin() + static_cast<long>(i), p.begin() + static_cast<long>(i + n));
                i += n;
            }
        } else if (type == (h265 ? 49 : 28)) {
            if (p.size() < hdr + 1) {
                continue;
            }
            const auto h = p[hdr];
            if (h & 0x80) {
                if (h265) {
                    fu = Bytes{ static_cast<uint8_t>((p[0] & 1) | ((h & 63) << 1)), p[1] };
                } else {
                    fu = Bytes{ static_cast<uint8_t>((p[0] & 0x60) | (h & 31)) };
                }
            }
            if (fu) {
                fu->insert(fu->end(), p.begin() + static_cast<long>(hdr + 1), p.end());
                if (h & 0x40) {
                    out.push_back(*fu);
                    fu.reset();
                }
            }
        } else {
            out.push_back(p);
        }
    }
}

void referenceObus(const std::vector<Bytes>& packets, std::vector<Bytes>& out)
{
    std::vector<Bytes> elements;
    bool open = false;
    for (const auto& p : packets) {
        if (p.empty()) {
            continue;
        }
        const bool z = p[0] & 0x80;
        const size_t w = (p[0] >> 4) & 3;
        size_t i = 1;
        for (size_t k = 0; i < p.size(); k += 1) {
            size_t n = p.size() - i;
            const bool last = w > 0 && k == w - 1;
            if (!last) {
                n = 0;
                for (int s = 0; i < p.size() && s < 35; s += 7) {
                    n |= static_cast<uint32_t>(p[i] & 0x7f) << s;
                    if (!(p[i++] & 0x80)) {
                        break;
                    }
                }
            }
            if (n == 0 || n > p.size() - i) {
                break;
            }
            const Bytes e(p.begin() + static_cast<long>(i), p.begin() + static_cast<long>(i + n));
            i += n;
            if (k == 0 && z) {
                if (open) {
                    elements.back().insert(elements.back().end(), e.begin(), e.end());
                }
            } else {
                elements.push_back(e);
                open = true;
            }
            if (last) {
                break;
            }
        }
    }
    for (const auto& e : elements) {
        // As an OBU with a size; an element which ends within its header is not one
        const size_t hdr = (e[0] & 4) ? 2 : 1;
        if (e.size() < hdr) {
            continue;
        }
        Bytes b{ static_cast<uint8_t>(e[0] | 2) };
        if (hdr == 2) {
            b.push_back(e[1]);
        }
        size_t n = e.size() - hdr;
        while (n >= 0x80) {
            b.push_back(static_cast<uint8_t>(0x80 | (n & 0x7f)));
            n >>= 7;
        }
        b.push_back(static_cast<uint8_t>(n));
        b.insert(b.end(), e.begin() + static_cast<long>(hdr), e.end());
        out.push_back(b);
    }
}

struct Vp9Desc {
    bool ok = false;
    bool i = false, p = false, b = false, e = false;
    uint16_t id = 0;
    size_t size = 0;
};

Vp9Desc referenceVp9(const Bytes& d)
{
    // RFC 9628, section 4.2
    Vp9Desc r;
    size_t pos = 0;
    const auto get = [&](uint8_t& v) {
        if (pos >= d.size()) {
            return false;
        }
        v = d[pos++];
        return true;
    };
    uint8_t f = 0, v = 0;
    if (!get(f)) {
        return r;
    }
    r.i = f & 0x80;
    r.p = f & 0x40;
    r.b = f & 8;
    r.e = f & 4;
    if (r.i) {
        if (!get(v)) {
            return r;
        }
        r.id = v & 0x7f;
        if (v & 0x80) {
            if (!get(v)) {
                return r;
            }
            r.id = static_cast<uint16_t>(r.id << 8 | v);
        }
    }
    if (f & 0x20) {
        if (!get(v) || (!(f & 0x10) && !get(v))) {
            return r;
        }
    }
    if ((f & 0x10) && r.p) {
        for (int k = 0; k < 3; k += 1) {
            if (!get(v)) {
                return r;
            }
            if (!(v & 1)) {
                break;
            }
        }
    }
    if (f & 2) {
        if (!get(v)) {
            return r;
        }
        const auto ss = v;
        if (ss & 0x10) {
            for (int k = 0; k < 4 * ((ss >> 5) + 1); k += 1) {
                if (!get(v)) {
                    return r;
                }
            }
        }
        if (ss & 8) {
            uint8_t ng = 0;
            if (!get(ng)) {
                return r;
            }
            for (int k = 0; k < ng; k += 1) {
                if (!get(v)) {
                    return r;
                }
                for (int n = (v >> 2) & 3; n > 0; n -= 1) {
                    uint8_t x;
                    if (!get(x)) {
                        return r;
                    }
                }
            }
        }
    }
    r.ok = true;
    r.size = pos;
    return r;
}

bool referenceVp8(const Bytes& d, size_t& pos)
{
    // RFC 7741, section 4.2
    pos = 1;
    if (d.empty()) {
        return false;
    }
    if (d[0] & 0x80) {
        if (d.size() < 2) {
            return false;
        }
        pos = 2;
        const auto x = d[1];
        if (x & 0x80) {
            if (pos >= d.size()) {
                return false;
            }
            pos += (d[pos] & 0x80) ? 2 : 1;
        }
        if (x & 0x40) {
            pos += 1;
        }
        if (x & 0x30) {
            pos += 1;
        }
    }
    return pos <= d.size();
}

// Whether `b` is made of some of the units, in order
bool madeOf(const Bytes& b, size_t pos, const std::vector<Bytes>& units, size_t from, bool startCodes)
{
    if (pos == b.size()) {
        return true;
    }
    if (startCodes) {
        if (b.size() - pos < 4 || memcmp(b.data() + pos, kStart, 4) != 0) {
            return false;
        }
        pos += 4;
    }
    for (size_t k = from; k < units.size(); k += 1) {
        const auto& u = units[k];
        if (u.size() <= b.size() - pos && std::equal(u.begin(), u.end(), b.begin() + static_cast<long>(pos)) &&
            madeOf(b, pos + u.size(), units, k + 1, startCodes)) {
            return true;
        }
    }
    return false;
}

bool plausible(Codec codec, const std::vector<Bytes>& packets, const Bytes& out)
{
    std::vector<Bytes> units;
    switch (codec) {
    case Codec::H264:
    case Codec::H265:
        referenceNalus(packets, codec == Codec::H265, units);
        return madeOf(out, 0, units, 0, true);
    case Codec::AV1:
        referenceObus(packets, units);
        return madeOf(out, 0, units, 0, false);
    case Codec::VP8:
    case Codec::VP9: {
        Bytes all;
        for (const auto& p : packets) {
            size_t pos = 0;
            if (codec == Codec::VP8) {
                if (!referenceVp8(p, pos)) {
                    return false;
                }
            } else {
                const auto d = referenceVp9(p);
                if (!d.ok) {
                    return false;
                }
                pos = d.size;
            }
            all.insert(all.end(), p.begin() + static_cast<long>(pos), p.end());
        }
        return out == all;
    }
    default:
        return packets.size() == 1 && out == packets[0];
    }
}

// ----- The alphabets

const Bytes& alphabet(Codec codec)
{
    // Aggregates, fragments (start, middle, end, both), slices, key frames, parameter sets, small and large sizes
    static const Bytes h264{ 0x78, 0x7c, 0x85, 0x45, 0xc1, 0x05, 0x61, 0x67, 0x00, 0x01, 0x02, 0xff };
    static const Bytes h265{ 0x60, 0x62, 0x93, 0x53, 0xd3, 0x13, 0x02, 0x40, 0x00, 0x01, 0x03, 0xff };
    // Aggregation headers, sizes, OBU headers with and without extension
    static const Bytes av1{ 0x00, 0x10, 0x20, 0x48, 0x80, 0x98, 0x01, 0x02, 0x0c, 0x34, 0x30, 0xff };
    static const Bytes vp8{ 0x10, 0x90, 0x80, 0x00, 0xf0, 0x40, 0x20, 0xff };
    static const Bytes vp9{ 0x08, 0x88, 0xb8, 0xa8, 0x9c, 0xca, 0x0a, 0xd8, 0x00, 0x10, 0x3a, 0x04, 0xff };
    static const Bytes other{ 0x00, 0x01, 0x80, 0xff };
    switch (codec) {
    case Codec::H264:
        return h264;
    case Codec::H265:
        return h265;
    case Codec::AV1:
        return av1;
    case Codec::VP8:
        return vp8;
    case Codec::VP9:
        return vp9;
    default:
        return other;
    }
}

std::shared_ptr<Track> makeTrack(Codec codec, Direction dir)
{
    mcu::TrackSpec ts;
    ts.codec = codec;
    ts.dir = dir;
    if (codec == Codec::Opus) {
        ts.type = MediaType::Audio;
        ts.clock = 48000;
    }
    return mcu::makeTrack(ts);
}

// Payloads of a key frame, which makes a depacketizer hand out frames from then on
std::vector<Bytes> keyFrame(Codec codec)
{
    switch (codec) {
    case Codec::H264:
        return { { 0x67, 0x41 }, { 0x68, 0x42 }, { 0x65, 0x88, 0x43 } };
    case Codec::H265:
        return { { 0x40, 1, 0x41 }, { 0x42, 1, 0x42 }, { 0x44, 1, 0x43 }, { 0x26, 1, 0xaf, 0x44 } };
    case Codec::AV1:
        return { { 0x18, 0x08, 0x11, 0x12 }, { 0x10, 0x30, 0x10, 0x13 } };
    case Codec::VP8:
        return { { 0x10, 0x10, 0x11, 0x12, 0x13 } };
    case Codec::VP9:
        return { { 0x0c, 0x82, 0x49, 0x83, 0x42 } };
    default:
        return { { 0x51 } };
    }
}

struct Direct {
    Codec codec;
    std::shared_ptr<Depacketizer> d;
    uint64_t ts = 5000;
    JitterBufferItem items[4];
    std::vector<const JitterBufferItem*> list;
    std::vector<ByteBuffer> out;

    explicit Direct(Codec c)
        : codec(c)
        , d(Depacketizer::make(makeTrack(c, Direction::Subscribe)).first)
    {
    }

    // Whether the jitter buffer would take these as one frame
    bool isFrame(const std::vector<Bytes>& packets)
    {
        const auto p = toBuf(packets[0]);
        const auto kind = d->getPacketKind(p, packets.size() == 1);
        return packets.size() == 1 ? kind == PacketKind::Standalone : kind == PacketKind::Start;
    }

    void extract(const std::vector<Bytes>& packets)
    {
        list.clear();
        ts += 3000;
        for (size_t i = 0; i < packets.size(); i += 1) {
            items[i].received = true;
            items[i].seq_ext = i;
            items[i].rtp_timestamp_ext = ts;
            items[i].marker = i + 1 == packets.size();
            items[i].payload = toBuf(packets[i]);
            items[i].kind = packets.size() == 1 ? PacketKind::Standalone : i == 0 ? PacketKind::Start : items[i].marker ? PacketKind::End : PacketKind::Middle;
            list.push_back(&items[i]);
        }
        d->extract(out, list);
    }
};

// Every string over an alphabet, in place
struct Odometer {
    const Bytes& alpha;
    std::vector<uint8_t*> digits;
    std::vector<size_t> at;

    explicit Odometer(const Bytes& a)
        : alpha(a)
    {
    }

    void add(uint8_t* p)
    {
        digits.push_back(p);
        at.push_back(0);
        *p = alpha[0];
    }

    bool next()
    {
        for (size_t i = digits.size(); i > 0; i -= 1) {
            if (++at[i - 1] < alpha.size()) {
                *digits[i - 1] = alpha[at[i - 1]];
                return true;
            }
            at[i - 1] = 0;
            *digits[i - 1] = alpha[0];
        }
        return false;
    }
};

// Packets of up to `total` bytes together, every way of dividing them, every content; the first few bytes are
// choices of the explorer and the rest is enumerated in the execution
void runChains(mc::Ctx& c, Codec codec)
{
    env::reset(c.seed());
    const auto& alpha = alphabet(codec);
    const int count = codec == Codec::Opus ? 1 : 1 + c.choose(3, "packets");
    const bool primed = codec != Codec::Opus && c.flip("after a key frame");
    int total = (count == 1 ? 6 : 5) + (c.thorough() ? 1 : 0);
    if (codec == Codec::VP8 && count != 3) {
        total += 1;
    }
    std::vector<Bytes> packets(static_cast<size_t>(count));
    int left = total;
    for (int i = 0; i < count; i += 1) {
        const int n = c.choose(left + 1, "length");
        packets[static_cast<size_t>(i)].resize(static_cast<size_t>(n));
        left -= n;
    }
    Direct d(codec);
    if (primed) {
        d.extract(keyFrame(codec));
        c.check(d.out.size() == 1, "M06", "key-frame", "a key frame does not come out");
    }
    Odometer od(alpha);
    int used = 0;
    for (auto& p : packets) {
        for (auto& b : p) {
            if (used < 2) {
                b = alpha[static_cast<size_t>(c.choose(static_cast<int>(alpha.size()), "byte"))];
            } else {
                od.add(&b);
            }
            used += 1;
        }
    }
    uint64_t frames = 0;
    do {
        if (c.verbose()) {
            c.log("%s", describe(packets).c_str());
        }
        c.step();
        for (size_t i = 0; i < packets.size(); i += 1) {
            (void)d.d->getPacketKind(toBuf(packets[i]), (i & 1) != 0);
        }
        if (!d.isFrame(packets)) {
            continue;
        }
        if (!primed) {
            d.d->reset();
        }
        d.extract(packets);
        for (const auto& o : d.out) {
            frames += 1;
            if (!plausible(codec, packets, toBytes(o))) {
                c.check(false, "M06", "invented", "%s: %s comes out", describe(packets).c_str(), mcu::hex(toBytes(o)).c_str());
                return;
            }
        }
        c.state(mc::mix(static_cast<uint64_t>(codec), d.out.empty() ? 0 : mcu::hashBytes(toBytes(d.out[0]))));
    } while (od.next());
    c.outcome(mc::mix(frames, static_cast<uint64_t>(total - left)));
}

// Any packets at all arriving at a jitter buffer
void runBuffer(mc::Ctx& c, Codec codec)
{
    env::reset(c.seed());
    env::setUs(5'000'000);
    std::vector<Bytes> pool;
    switch (codec) {
    case Codec::H264:
        pool = { {}, { 0x67 }, { 0x67, 1 }, { 0x61, 0x9a }, { 0x78, 0, 2, 0x67, 1 }, { 0x78, 0, 9, 0x67 }, { 0x7c, 0x87, 1 }, { 0x7c, 0x81, 0x9a },
                 { 0x7c, 0x05, 0x33 }, { 0x7c, 0x45, 0x44 }, { 0x7c, 0xc5, 0x55 }, { 0x7c }, { 0x09, 0x10 } };
        break;
    case Codec::H265:
        pool = { {}, { 0x40 }, { 0x40, 1 }, { 0x40, 1, 2 }, { 0x02, 1, 0x9a }, { 0x60, 1, 0, 3, 0x40, 1, 2 }, { 0x60, 1, 0, 9, 0x40 }, { 0x62, 1, 0xa0, 1 },
                 { 0x62, 1, 0x81, 0x9a }, { 0x62, 1, 0x13, 0x33 }, { 0x62, 1, 0x53, 0x44 }, { 0x62, 1 }, { 0x46, 1, 0x10 } };
        break;
    case Codec::AV1:
        pool = { {}, { 0x10 }, { 0x18, 0x08, 1 }, { 0x10, 0x30, 2 }, { 0x00, 1, 0x34 }, { 0x00, 1, 0x34, 1, 7 }, { 0x10, 0x34 }, { 0x50, 0x30, 3 },
                 { 0x90, 4 }, { 0xd0, 5 }, { 0x80, 9, 1 }, { 0x00, 0xff, 0xff, 0xff, 0xff, 0xff }, { 0x20, 1, 0x30, 0x30 } };
        break;
    case Codec::VP8:
        pool = { {}, { 0x10 }, { 0x10, 0, 1, 2 }, { 0x10, 1, 1, 2 }, { 0x00, 3 }, { 0x80 }, { 0x90, 0xf0, 0x80, 1, 2, 3, 4 }, { 0x90, 0x80, 0x80 }, { 0x11, 1 } };
        break;
    case Codec::VP9:
        pool = { {}, { 0x08 }, { 0x0c, 0x82, 1 }, { 0x4c, 0x86, 2 }, { 0x00, 3 }, { 0x04, 4 }, { 0x88 }, { 0xa8, 0x80, 1, 0 }, { 0xac, 0x85, 0x07, 0x21, 0x55, 0x86 }, { 0x0a, 0xff }, { 0x0e, 0x18, 0 } };
        break;
    default:
        pool = { {}, { 0x51 }, { 0x00, 0x01 } };
        break;
    }
    const auto track = makeTrack(codec, Direction::Subscribe);
    JitterBuffer jb(track, Depacketizer::make(track).first, 16, std::chrono::milliseconds(60), std::chrono::milliseconds(20));
    uint16_t seq = 65530;
    uint32_t ts = 0xffffff00u;
    std::vector<Bytes> sent;
    const auto give = [&](const Bytes& p, bool marker) {
        jb.consume(std::make_shared<RtpPacket>(track, marker, 0, seq, ts, 0, toBuf(p)));
        seq += 1;
        c.step();
    };
    if (c.flip("after a key frame")) {
        const auto k = keyFrame(codec);
        for (size_t i = 0; i < k.size(); i += 1) {
            give(k[i], i + 1 == k.size());
        }
        ts += 3000;
        sent = k;
    }
    const int count = c.thorough() ? 4 : 3;
    for (int i = 0; i < count; i += 1) {
        const auto& p = pool[static_cast<size_t>(c.choose(static_cast<int>(pool.size()), "payload"))];
        // 0: goes on, 1: last of the frame, 2: the timestamp changes without a marker
        const int how = c.choose(3, "marker");
        give(p, how == 1);
        sent.push_back(p);
        if (how != 0) {
            ts += 3000;
        }
    }
    size_t bytes = 0;
    for (int i = 0; i < 3; i += 1) {
        env::advanceMs(30);
        for (const auto& f : jb.processDeque()) {
            bytes += f->data.size();
            c.state(mcu::hashBytes(toBytes(f->data)));
        }
        (void)jb.processNack();
        c.step();
    }
    size_t most = 0;
    for (const auto& p : sent) {
        most += 8 + 3 * p.size();
    }
    c.check(bytes <= most, "M06", "too-much", "%s: %zu bytes come out", describe(sent).c_str(), bytes);
    c.outcome(bytes);
}

// ----- Bitstreams

// All units of an Annex B stream, as offsets of the data and sizes. False if it does not end in a unit with a byte in it
bool referenceSplit(const Bytes& b, std::vector<std::pair<size_t, size_t>>& out)
{
    size_t i = 0;
    const auto code = [&](size_t k) -> size_t {
        if (k + 4 <= b.size() && memcmp(&b[k], kStart, 4) == 0) {
            return 4;
        }
        if (k + 3 <= b.size() && memcmp(&b[k], kStart + 1, 3) == 0) {
            return 3;
        }
        return 0;
    };
    while (i < b.size() && code(i) == 0) {
        i += 1;
    }
    bool good = true;
    while (i < b.size()) {
        i += code(i);
        const auto from = i;
        while (i < b.size() && code(i) == 0) {
            i += 1;
        }
        out.emplace_back(from, i - from);
        good = good && i > from;
    }
    return good;
}

template <class Parser>
bool splitsRight(mc::Ctx& c, const Bytes& b, const ByteBuffer& buf, const char* name)
{
    std::vector<std::pair<size_t, size_t>> want, got;
    const bool good = referenceSplit(b, want);
    size_t turns = 0;
    int types = 0;
    for (Parser p(buf); p; p.next()) {
        if (++turns > b.size() + 2) {
            c.check(false, "M17", "endless", "%s: %s: the parser does not come to an end", name, mcu::hex(b).c_str());
            return false;
        }
        const auto* data = p.currData();
        const auto size = p.currDataSize();
        const bool inside = data >= buf.data() && data <= buf.data() + buf.size() && size <= buf.size() &&
                            static_cast<size_t>(data - buf.data()) + size <= buf.size() && p.currNalu() <= data &&
                            p.currNalu() + p.currNaluSize() == data + size;
        if (!inside) {
            c.check(false, "M17", "outside", "%s: %s: a unit lies outside", name, mcu::hex(b).c_str());
            return false;
        }
        got.emplace_back(data - buf.data(), size);
        if (size > 0) {
            types += p.currType();
        }
        (void)p.isAtStart();
        if (p.isAtEnd() != (static_cast<size_t>(data - buf.data()) + size == buf.size()) && good) {
            c.check(false, "M17", "last", "%s: %s: the last unit is not told apart", name, mcu::hex(b).c_str());
            return false;
        }
    }
    if (good && got != want) {
        c.check(false, "M17", "units", "%s: %s: %zu units come out, should be %zu", name, mcu::hex(b).c_str(), got.size(), want.size());
        return false;
    }
    c.state(mc::mix(static_cast<uint64_t>(types), got.size()));
    return true;
}

std::vector<std::shared_ptr<RtpExtensionSource>> noSources;

void runStrings(mc::Ctx& c, Codec codec)
{
    env::reset(c.seed());
    static const Bytes nalu{ 0x00, 0x01, 0x03, 0x65, 0x26, 0xff };
    static const Bytes obu{ 0x12, 0x0a, 0x32, 0x36, 0x30, 0x34, 0x80, 0x01, 0x02, 0x00, 0xff };
    static const Bytes vpx{ 0x82, 0x86, 0xb0, 0xb8, 0x00, 0x10, 0x49, 0xff, 0x9d };
    const bool annexB = codec == Codec::H264 || codec == Codec::H265;
    const auto& alpha = annexB ? nalu : codec == Codec::AV1 ? obu : vpx;
    const int most = annexB ? (c.thorough() ? 9 : 7) : codec == Codec::AV1 ? (c.thorough() ? 7 : 6) : (c.thorough() ? 6 : 5);
    const int size = c.choose(most + 1, "length");
    Bytes b(static_cast<size_t>(size));
    Odometer od(alpha);
    for (int i = 0; i < size; i += 1) {
        if (i < 3) {
            b[static_cast<size_t>(i)] = alpha[static_cast<size_t>(c.choose(static_cast<int>(alpha.size()), "byte"))];
        } else {
            od.add(&b[static_cast<size_t>(i)]);
        }
    }
    auto packetizer = Packetizer::make(makeTrack(codec, Direction::Publish)).first;
    uint64_t keys = 0;
    int64_t pts = 1000;
    do {
        if (c.verbose()) {
            c.log("%s", mcu::hex(b).c_str());
        }
        c.step();
        const auto buf = toBuf(b);
        if (codec == Codec::H264) {
            if (!splitsRight<h264::NaluParser>(c, b, buf, "H.264")) {
                return;
            }
            (void)h264::isFrameStart(buf.data(), buf.size());
            (void)h264::isSliceFrameStart(buf.data(), buf.size());
        } else if (codec == Codec::H265) {
            if (!splitsRight<h265::NaluParser>(c, b, buf, "H.265")) {
                return;
            }
            (void)h265::isFrameStart(buf.data(), buf.size());
            (void)h265::isSliceFrameStart(buf.data(), buf.size());
        } else if (codec == Codec::AV1) {
            size_t turns = 0;
            const uint8_t* end = buf.data();
            for (av1::ObuParser p(buf); p; p.next()) {
                const auto* data = p.currData();
                const auto n = p.currSize();
                const auto room = static_cast<size_t>(buf.data() + buf.size() - data);
                if (++turns > b.size() + 1 || data < end || data > buf.data() + buf.size() || n > room) {
                    c.check(false, "M17", "obu", "AV1: %s: unit %zu lies outside, or there is no end", mcu::hex(b).c_str(), turns);
                    return;
                }
                end = data + n;
                keys += av1::isKeyFrameObu(p.currType(), data, n) ? 1 : 0;
                (void)p.isAtEnd();
                c.state(mc::mix(p.currType(), n * 64 + p.currTemporalId() * 8 + p.currSpatialId()));
            }
        } else {
            keys += vp9::isKeyFrame(buf.data(), buf.size()) ? 1 : 0;
            uint16_t w = 0, h = 0;
            keys += vp9::extractDimensions(buf.data(), buf.size(), w, h) ? 1 : 0;
            vp9::PayloadDescriptor desc = {};
            const uint8_t* p = nullptr;
            size_t n = 0;
            const bool ok = vp9::parsePayloadDescriptor(buf.data(), buf.size(), desc, p, n);
            const auto want = referenceVp9(b);
            const bool same = ok == want.ok && (!ok || (p == buf.data() + want.size && n == b.size() - want.size && desc.picture_id_present == want.i &&
                                                        desc.inter_picture == want.p && desc.start_of_frame == want.b && desc.end_of_frame == want.e &&
                                                        desc.picture_id == want.id));
            if (!same) {
                c.check(false, "M17", "descriptor", "VP9: %s: the descriptor is parsed as %s, %zu bytes of payload, should be %s, %zu", mcu::hex(b).c_str(),
                        ok ? "valid" : "invalid", n, want.ok ? "valid" : "invalid", b.size() - want.size);
                return;
            }
        }
        keys += packetizer->isKeyFrame(buf) ? 1 : 0;
        pts += 20000;
        keys += packetizer->generate(noSources, 16, pts, buf).size();
    } while (od.next());
    c.outcome(keys);
}

// Well-formed streams: what was joined comes apart again
void runJoined(mc::Ctx& c, Codec codec)
{
    env::reset(c.seed());
    const int count = 1 + c.choose(c.thorough() ? 4 : 3, "units");
    Bytes b;
    auto packetizer = Packetizer::make(makeTrack(codec, Direction::Publish)).first;
    bool key = false;
    if (codec == Codec::AV1) {
        struct U {
            int type, t, s;
            Bytes data;
        };
        std::vector<U> want;
        for (int i = 0; i < count; i += 1) {
            U u;
            const int types[] = { 6, 1, 5, 3, 4 };
            u.type = types[c.choose(i == 0 ? 5 : i == 1 ? 3 : 2, "type")];
            const int ids = c.choose(i == 0 ? 3 : i == 1 ? 2 : 1, "ids");
            u.t = ids == 1 ? 7 : 0;
            u.s = ids == 2 ? 3 : 0;
            const size_t sizes[] = { 1, 2, 127, 128, 129, 16384 };
            const auto size = sizes[i == 0 ? c.choose(6, "size") : i == 1 ? 3 * c.choose(2, "size") : 1];
            u.data = mcu::pattern(c.seed(), static_cast<uint64_t>(i), size);
            // shown, type key / inter / intra-only, or showing an existing frame
            const uint8_t heads[] = { 0x10, 0x30, 0x50, 0x80 };
            u.data[0] = heads[c.choose(u.type == 3 || u.type == 6 ? 4 : 1, "head")];
            key = key || u.type == 1 || ((u.type == 3 || u.type == 6) && size > 1 && (u.data[0] == 0x10 || u.data[0] == 0x50));
            const int form = c.choose(i == count - 1 ? 3 : 2, "form");
            b.push_back(static_cast<uint8_t>((u.type << 3) | (ids ? 4 : 0) | (form == 2 ? 0 : 2)));
            if (ids) {
                b.push_back(static_cast<uint8_t>((u.t << 5) | (u.s << 3)));
            }
            if (form != 2) {
                auto n = size;
                while (n >= 0x80) {
                    b.push_back(static_cast<uint8_t>(0x80 | (n & 0x7f)));
                    n >>= 7;
                }
                b.push_back(static_cast<uint8_t>(n));
                if (form == 1) {
                    b.back() |= 0x80;
                    b.push_back(0x80);
                    b.push_back(0x00);
                }
            }
            b.insert(b.end(), u.data.begin(), u.data.end());
            want.push_back(u);
        }
        const auto buf = toBuf(b);
        size_t k = 0;
        for (av1::ObuParser p(buf); p; p.next(), k += 1) {
            const bool same = k < want.size() && p.currType() == want[k].type && p.currTemporalId() == want[k].t && p.currSpatialId() == want[k].s &&
                              p.currSize() == want[k].data.size() && memcmp(p.currData(), want[k].data.data(), p.currSize()) == 0 &&
                              p.isAtEnd() == (k + 1 == want.size());
            if (!same) {
                c.check(false, "M17", "obus", "unit %zu of %zu comes out different", k, want.size());
                return;
            }
            c.step();
        }
        c.check(k == want.size(), "M17", "obus", "%zu units come out of %zu", k, want.size());
        c.check(packetizer->isKeyFrame(buf) == key, "M17", "key-frame", "%s: key frame is %d", mcu::hex(b).c_str(), !key);
    } else {
        const bool h265 = codec == Codec::H265;
        const int types264[] = { 1, 5, 6, 7, 8, 9 };
        const int types265[] = { 1, 19, 20, 21, 32, 34, 39 };
        for (int i = 0; i < count; i += 1) {
            const int type = h265 ? types265[c.choose(7, "type")] : types264[c.choose(6, "type")];
            Bytes u;
            if (h265) {
                u = { static_cast<uint8_t>(type << 1), 1 };
            } else {
                u = { static_cast<uint8_t>(0x60 | type) };
            }
            key = key || (h265 ? type >= 19 && type <= 21 : type == 5);
            const Bytes bodies[] = { { 0x88 }, { 0, 0, 3, 1 }, { 0, 0, 3, 0, 0, 3, 0x80 }, { 0, 0x80 }, { 0x40, 0, 0, 2 }, {} };
            const auto& body = bodies[c.choose(6, "body")];
            u.insert(u.end(), body.begin(), body.end());
            if (c.flip("start code")) {
                b.push_back(0);
            }
            b.insert(b.end(), kStart + 1, kStart + 4);
            b.insert(b.end(), u.begin(), u.end());
        }
        const auto buf = toBuf(b);
        c.step();
        if (h265) {
            splitsRight<h265::NaluParser>(c, b, buf, "H.265");
        } else {
            splitsRight<h264::NaluParser>(c, b, buf, "H.264");
        }
        c.check(packetizer->isKeyFrame(buf) == key, "M17", "key-frame", "%s: key frame is %d", mcu::hex(b).c_str(), !key);
    }
    c.state(mcu::hashBytes(b));
    c.outcome(key);
}

// Fields of headers: first slices, VP9 frame headers and the descriptor
void runFields(mc::Ctx& c)
{
    env::reset(c.seed());
    switch (c.choose(4, "what")) {
    case 0: {
        // ue(v) with every number of leading zeros
        const int zeros = c.choose(40, "leading zeros");
        const int pattern = c.choose(3, "suffix");
        std::vector<int> bits;
        for (int i = 0; i < zeros; i += 1) {
            bits.push_back(0);
        }
        bits.push_back(1);
        uint64_t want = 0;
        for (int i = 0; i < zeros; i += 1) {
            const int v = pattern == 0 ? 0 : pattern == 1 ? 1 : i & 1;
            bits.push_back(v);
            want = want << 1 | static_cast<uint64_t>(v);
        }
        Bytes b;
        for (size_t i = 0; i < bits.size(); i += 1) {
            if (i % 8 == 0) {
                b.push_back(0);
            }
            b.back() = static_cast<uint8_t>(b.back() | (bits[i] << (7 - i % 8)));
        }
        const auto cut = static_cast<size_t>(c.choose(static_cast<int>(b.size()) + 1, "cut"));
        const mcu::Exact e(Bytes(b.begin(), b.begin() + static_cast<long>(b.size() - cut)));
        BitReader r(e.data(), e.size());
        const auto v = r.readUnsignedExpGolomb();
        c.step();
        if (cut == 0 && zeros < 32) {
            c.check(v == want + (1ull << zeros) - 1, "M17", "golomb", "%d leading zeros: %u", zeros, v);
        }
        c.check(h264::isSliceFrameStart(e.data(), e.size()) == (e.size() > 0 && zeros == 0), "M17", "first-slice", "%d leading zeros, cut %zu", zeros, cut);
        c.check(h265::isSliceFrameStart(e.data(), e.size()) == (e.size() > 0 && zeros == 0), "M17", "first-slice", "H.265: %d leading zeros, cut %zu", zeros, cut);
        c.state(v);
        break;
    }
    case 1: {
        // VP9 uncompressed header
        const int profile = c.choose(4, "profile");
        const bool show = c.flip("show existing");
        const bool inter = c.flip("inter");
        const int space = c.choose(3, "colour space") == 0 ? 7 : 2;
        const int dims[] = { 1, 640, 65535 };
        const int w = dims[c.choose(3, "width")], h = dims[c.choose(3, "height")];
        const bool sync = !c.flip("bad sync");
        std::vector<int> bits;
        const auto put = [&](uint32_t v, int n) {
            for (int i = n - 1; i >= 0; i -= 1) {
                bits.push_back(static_cast<int>((v >> i) & 1));
            }
        };
        put(2, 2);
        put(static_cast<uint32_t>(profile & 1), 1);
        put(static_cast<uint32_t>(profile >> 1), 1);
        if (profile == 3) {
            put(0, 1);
        }
        put(show, 1);
        put(inter, 1);
        put(1, 1);
        put(0, 1);
        put(0x49, 8);
        put(sync ? 0x83 : 0x82, 8);
        put(0x42, 8);
        if (profile >= 2) {
            // The bit depth comes first in these
            put(0, 1);
        }
        put(static_cast<uint32_t>(space), 3);
        if (space != 7) {
            put(0, 1);
            if (profile & 1) {
                put(0, 3);
            }
        } else if (profile & 1) {
            put(0, 1);
        }
        put(static_cast<uint32_t>(w - 1), 16);
        put(static_cast<uint32_t>(h - 1), 16);
        put(0, 3);
        Bytes b;
        for (size_t i = 0; i < bits.size(); i += 1) {
            if (i % 8 == 0) {
                b.push_back(0);
            }
            b.back() = static_cast<uint8_t>(b.back() | (bits[i] << (7 - i % 8)));
        }
        const auto cut = static_cast<size_t>(c.choose(static_cast<int>(b.size()) + 1, "cut"));
        const mcu::Exact e(Bytes(b.begin(), b.begin() + static_cast<long>(b.size() - cut)));
        uint16_t gw = 0, gh = 0;
        const bool ok = vp9::extractDimensions(e.data(), e.size(), gw, gh);
        c.step();
        if (cut == 0) {
            const bool wanted = !show && !inter && sync;
            c.check(ok == wanted && (!ok || (gw == w && gh == h)), "M17", "dimensions", "profile %d, colour space %d, %d x %d: %s, %d x %d", profile, space, w, h,
                    ok ? "found" : "not found", gw, gh);
        }
        if (e.size() > 0) {
            c.check(vp9::isKeyFrame(e.data(), e.size()) == (!show && !inter), "M17", "vp9-key", "profile %d, show existing %d, inter %d", profile, show, inter);
        }
        c.state(mc::mix(mcu::hashBytes(b), cut));
        break;
    }
    case 2: {
        // VP9 descriptors with all their parts, cut anywhere
        Bytes b(1);
        const auto in = [&](uint8_t flag, bool v) { b[0] = static_cast<uint8_t>(b[0] | (v ? flag : 0)); };
        const int id = c.choose(3, "picture id");
        in(0x80, id != 0);
        if (id == 1) {
            b.push_back(0x7e);
        } else if (id == 2) {
            b.push_back(0xfe);
            b.push_back(0x01);
        }
        const bool flexible = c.flip("flexible"), inter = c.flip("inter"), layers = c.flip("layers");
        in(0x10, flexible);
        in(0x40, inter);
        in(0x20, layers);
        if (layers) {
            b.push_back(0x25);
            if (!flexible) {
                b.push_back(0x09);
            }
        }
        if (flexible && inter) {
            const int refs = 1 + c.choose(3, "references");
            for (int i = 0; i < refs; i += 1) {
                b.push_back(static_cast<uint8_t>(0x04 | (i + 1 < refs || i == 2 ? 1 : 0)));
            }
        }
        if (c.flip("structure")) {
            in(2, true);
            static const int spatial[] = { 0, 1, 7 };
            const int ns = spatial[c.choose(3, "spatial layers")];
            const bool y = c.flip("sizes");
            static const int groups[] = { -1, 0, 1, 2, 255 };
            const int ng = groups[c.choose(5, "groups")];
            b.push_back(static_cast<uint8_t>(ns << 5 | (y ? 0x10 : 0) | (ng >= 0 ? 8 : 0) | 5));
            for (int i = 0; y && i < 4 * (ns + 1); i += 1) {
                b.push_back(static_cast<uint8_t>(i & 1 ? 0x80 : 2));
            }
            if (ng >= 0) {
                b.push_back(static_cast<uint8_t>(ng));
            }
            int r = 0;
            for (int i = 0; i < ng; i += 1) {
                r = i < 2 ? c.choose(4, "group references") : r;
                b.push_back(static_cast<uint8_t>(0x53 | r << 2));
                for (int k = 0; k < r; k += 1) {
                    b.push_back(static_cast<uint8_t>(0x11 * k));
                }
            }
        }
        b.push_back(0x82);
        b.push_back(0x49);
        for (size_t n = 0; n <= b.size(); n += 1) {
            const Bytes d(b.begin(), b.begin() + static_cast<long>(n));
            const mcu::Exact e(d);
            vp9::PayloadDescriptor desc = {};
            const uint8_t* p = nullptr;
            size_t size = 0;
            const bool ok = vp9::parsePayloadDescriptor(e.data(), e.size(), desc, p, size);
            const auto want = referenceVp9(d);
            c.step();
            c.check(ok == want.ok && (!ok || (p == e.data() + want.size && size == n - want.size && desc.picture_id_present == want.i &&
                                              desc.inter_picture == want.p && desc.start_of_frame == want.b && desc.end_of_frame == want.e && desc.picture_id == want.id)),
                    "M17", "descriptor", "VP9: %s: the descriptor is parsed as %s, %zu bytes of payload, should be %s, %zu", mcu::hex(d).c_str(),
                    ok ? "valid" : "invalid", size, want.ok ? "valid" : "invalid", n - want.size);
        }
        c.state(mcu::hashBytes(b));
        break;
    }
    default: {
        // What is built parses back
        const bool s = c.flip("start"), e = c.flip("end"), p = c.flip("inter");
        const int ids[] = { 0, 1, 127, 128, 255, 256, 32767 };
        const auto id = static_cast<uint16_t>(ids[c.choose(7, "id")]);
        const auto room = static_cast<size_t>(c.choose(5, "room"));
        const mcu::Exact buf(Bytes(room, 0xee));
        const auto n = vp9::buildPayloadDescriptor(const_cast<uint8_t*>(buf.data()), room, s, e, p, id);
        c.step();
        c.check(n == (room < 3 ? 0 : 3), "M17", "descriptor-size", "room for %zu: %zu bytes", room, n);
        if (n > 0) {
            const auto d = referenceVp9(Bytes(buf.data(), buf.data() + n));
            c.check(d.ok && d.size == n && d.i && d.p == p && d.b == s && d.e == e && d.id == id, "M17", "descriptor-built", "id %d", id);
        }
        c.state(mc::mix(id, room));
        break;
    }
    }
    c.outcome(0);
}

} // namespace

namespace mc
{

void registerScenarios(bool)
{
    env::quiet();
    const struct {
        const char* name;
        Codec codec;
    } codecs[] = {
        { "h264", Codec::H264 }, { "h265", Codec::H265 }, { "av1", Codec::AV1 }, { "vp8", Codec::VP8 }, { "vp9", Codec::VP9 }, { "opus", Codec::Opus },
    };
    for (const auto& k : codecs) {
        const auto codec = k.codec;
        const std::string n = k.name;
        add("chains-" + n, { "M06" }, 0, 0, [codec](Ctx& c) { runChains(c, codec); });
        add("buffer-" + n, { "M06" }, 0, 0, [codec](Ctx& c) { runBuffer(c, codec); });
        if (codec != Codec::Opus) {
            add("strings-" + n, { "M17" }, 0, 0, [codec](Ctx& c) { runStrings(c, codec); });
        }
        if (codec == Codec::H264 || codec == Codec::H265 || codec == Codec::AV1) {
            add("joined-" + n, { "M17" }, 0, 0, [codec](Ctx& c) { runJoined(c, codec); });
        }
    }
    add("fields", { "M17" }, 0, 0, runFields);
}

} // namespace mc
