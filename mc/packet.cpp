// Packetizers, RTP serialization, parsing and depacketizers together: every frame from a grid of shapes is published,
// the packets are checked, and the frame is rebuilt by the real depacketizer and by the real jitter buffer.
#include "util_mc.h"

#include "srtc/codec_vp9.h"
#include "srtc/depacketizer.h"
#include "srtc/encoded_frame.h"
#include "srtc/jitter_buffer.h"
#include "srtc/jitter_buffer_item.h"
#include "srtc/packetizer.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/rtp_extension_source.h"
#include "srtc/rtp_packet.h"
#include "srtc/rtp_packet_source.h"
#include "srtc/rtp_time_source.h"

#include <optional>

using namespace srtc;
using mcu::Bytes;
using mcu::toBuf;
using mcu::toBytes;

namespace
{

constexpr size_t kLimit = 1200;

// A unit of a frame: a NAL unit, an OBU, or the whole frame for the other codecs
struct Unit {
    int type = 0;
    Bytes data;     // With the unit's own header, except for AV1
    int temporal = 0;
    int spatial = 0;
    bool operator==(const Unit& o) const
    {
        return type == o.type && data == o.data && temporal == o.temporal && spatial == o.spatial;
    }
};

struct Frame {
    std::vector<Unit> units;    // What must come out
    Bytes bytes;                // What is published
    bool key = false;
};

std::string describe(const std::vector<Unit>& units)
{
    std::string r;
    for (const auto& u : units) {
        r += "[" + std::to_string(u.type) + ":" + std::to_string(u.data.size()) + "]";
    }
    return r;
}

// Content that cannot contain a start code
Bytes content(mc::Ctx& c, uint64_t tag, size_t size)
{
    auto b = mcu::pattern(c.seed(), tag, size);
    for (auto& x : b) {
        x |= 1;
    }
    return b;
}

// ----- Building frames

Bytes h264Nalu(mc::Ctx& c, uint64_t tag, int type, size_t size, bool first)
{
    auto b = content(c, tag, size);
    b[0] = static_cast<uint8_t>((type == 6 || type == 9 ? 0 : 0x60) | type);
    if (size > 1 && (type == 1 || type == 5)) {
        // first_mb_in_slice
        b[1] = first ? 0x88 : 0x5a;
    }
    return b;
}

Bytes h265Nalu(mc::Ctx& c, uint64_t tag, int type, size_t size, bool first)
{
    auto b = content(c, tag, size);
    b[0] = static_cast<uint8_t>(type << 1);
    b[1] = static_cast<uint8_t>((tag & 1) ? 0x01 : 0x03);
    if (type < 32 && !first) {
        // A slice of another layer, whose number is in both bytes
        const int layer = 41;
        b[0] |= layer >> 5;
        b[1] |= static_cast<uint8_t>((layer & 0x1f) << 3);
    }
    if (size > 2 && type < 32) {
        b[2] = static_cast<uint8_t>((b[2] & 0x7f) | (first ? 0x80 : 0));
    }
    return b;
}

void addNalu(Frame& f, const Bytes& nalu, int type, int startCode)
{
    if (startCode == 4) {
        f.bytes.push_back(0);
    }
    f.bytes.push_back(0);
    f.bytes.push_back(0);
    f.bytes.push_back(1);
    f.bytes.insert(f.bytes.end(), nalu.begin(), nalu.end());
    f.units.push_back({ type, nalu, 0, 0 });
}

enum ObuForm { kObuSize, kObuLongSize, kObuNoSize };

void addObu(Frame& f, const Bytes& data, int type, int temporal, int spatial, ObuForm form)
{
    const bool ext = temporal != 0 || spatial != 0;
    f.bytes.push_back(static_cast<uint8_t>((type << 3) | (ext ? 4 : 0) | (form == kObuNoSize ? 0 : 2)));
    if (ext) {
        f.bytes.push_back(static_cast<uint8_t>((temporal << 5) | (spatial << 3)));
    }
    if (form != kObuNoSize) {
        auto v = data.size();
        Bytes leb;
        do {
            leb.push_back(static_cast<uint8_t>(0x80 | (v & 0x7f)));
            v >>= 7;
        } while (v != 0);
        if (form == kObuLongSize) {
            leb.push_back(0x80);
            leb.push_back(0x80);
        }
        leb.back() &= 0x7f;
        f.bytes.insert(f.bytes.end(), leb.begin(), leb.end());
    }
    f.bytes.insert(f.bytes.end(), data.begin(), data.end());
    if (type != 2) {
        f.units.push_back({ type, data, temporal, spatial });
    }
}

// ----- Reading what came out, independently of the library's parsers

bool parseNalus(const Bytes& b, bool h265, std::vector<Unit>& out)
{
    size_t i = 0;
    const auto startAt = [&](size_t k) -> size_t {
        if (k + 4 <= b.size() && !b[k] && !b[k + 1] && !b[k + 2] && b[k + 3] == 1) {
            return 4;
        }
        if (k + 3 <= b.size() && !b[k] && !b[k + 1] && b[k + 2] == 1) {
            return 3;
        }
        return 0;
    };
    while (i < b.size()) {
        const auto s = startAt(i);
        if (s == 0) {
            return false;
        }
        i += s;
        const auto from = i;
        while (i < b.size() && startAt(i) == 0) {
            i += 1;
        }
        if (i == from) {
            return false;
        }
        Bytes d(b.begin() + static_cast<long>(from), b.begin() + static_cast<long>(i));
        out.push_back({ h265 ? (d[0] >> 1) & 0x3f : d[0] & 0x1f, d, 0, 0 });
    }
    return true;
}

bool parseObus(const Bytes& b, std::vector<Unit>& out)
{
    size_t i = 0;
    while (i < b.size()) {
        const auto h = b[i++];
        if (h & 0x81) {
            return false;
        }
        Unit u;
        u.type = (h >> 3) & 15;
        if (h & 4) {
            if (i >= b.size()) {
                return false;
            }
            u.temporal = b[i] >> 5;
            u.spatial = (b[i] >> 3) & 3;
            i += 1;
        }
        size_t size = b.size() - i;
        if (h & 2) {
            size = 0;
            for (int s = 0;; s += 7) {
                if (i >= b.size() || s > 28) {
                    return false;
                }
                size |= size_t(b[i] & 0x7f) << s;
                if (!(b[i++] & 0x80)) {
                    break;
                }
            }
        }
        if (size > b.size() - i) {
            return false;
        }
        u.data.assign(b.begin() + static_cast<long>(i), b.begin() + static_cast<long>(i + size));
        i += size;
        out.push_back(u);
    }
    return true;
}

bool parseFrame(Codec codec, const Bytes& b, std::vector<Unit>& out)
{
    switch (codec) {
    case Codec::H264:
        return parseNalus(b, false, out);
    case Codec::H265:
        return parseNalus(b, true, out);
    case Codec::AV1:
        return parseObus(b, out);
    default:
        out.push_back({ 0, b, 0, 0 });
        return true;
    }
}

// ----- The publisher's configuration

struct Config {
    size_t overhead = 16;
    int ext = 0;        // See kExtNames
    uint8_t padding = 0;
    bool csd = false;
};

const char* const kExtNames[] = { "none", "every", "first", "key", "two", "large" };

class TestSource final : public RtpExtensionSource
{
public:
    explicit TestSource(const Config& cfg)
        : mCfg(cfg)
    {
    }

    uint8_t getPadding(const std::shared_ptr<Track>&, size_t) override
    {
        return mCfg.padding;
    }

    bool wantsExtension(const std::shared_ptr<Track>&, bool isKeyFrame, unsigned int packetNumber) const override
    {
        switch (mCfg.ext) {
        case 1:
        case 4:
        case 5:
            return true;
        case 2:
            return packetNumber == 0;
        case 3:
            return isKeyFrame;
        default:
            return false;
        }
    }

    void addExtension(RtpExtensionBuilder& builder, const std::shared_ptr<Track>&, bool, unsigned int packetNumber) override
    {
        builder.addU16Value(3, static_cast<uint16_t>(packetNumber));
        if (mCfg.ext == 4) {
            builder.addU64Value(14, 0x0102030405060708ull);
        }
        if (mCfg.ext == 5) {
            builder.addStringValue(9, std::string(200, 'x'));
            builder.addStringValue(10, std::string(99, 'y'));
        }
    }

private:
    const Config mCfg;
};

size_t extSize(const Config& cfg)
{
    switch (cfg.ext) {
    case 0:
        return 0;
    case 4:
        return 4 + 16;
    case 5:
        return 4 + 4 * ((4 + 2 + 200 + 2 + 99 + 3) / 4);
    default:
        return 8;
    }
}

// ----- The two sides

struct Ends {
    Codec codec;
    std::shared_ptr<Track> pub, sub;
    std::shared_ptr<Packetizer> packetizer;
    std::shared_ptr<Depacketizer> depacketizer;
    std::unique_ptr<JitterBuffer> jb;
    std::vector<std::shared_ptr<RtpExtensionSource>> sources;
    Config cfg;
    std::optional<uint16_t> lastSeq;
    std::optional<uint32_t> lastTs;
    std::optional<uint16_t> lastId; // of a VP9 picture
    int frames = 0;
    uint64_t h = 0;
};

Ends makeEnds(Codec codec, const Config& cfg)
{
    Ends e;
    e.codec = codec;
    e.cfg = cfg;
    mcu::TrackSpec ts;
    ts.codec = codec;
    if (codec == Codec::Opus) {
        ts.type = MediaType::Audio;
        ts.clock = 48000;
    }
    e.pub = mcu::makeTrack(ts);
    ts.dir = Direction::Subscribe;
    e.sub = mcu::makeTrack(ts);
    e.packetizer = Packetizer::make(e.pub).first;
    e.depacketizer = Depacketizer::make(e.sub).first;
    e.jb = std::make_unique<JitterBuffer>(
        e.sub, Depacketizer::make(e.sub).first, 1024, std::chrono::milliseconds(100), std::chrono::milliseconds(20));
    e.sources.push_back(std::make_shared<TestSource>(cfg));
    return e;
}

// Publish one frame. `expect` is what must come out, `lateTs` whether the timestamps may repeat
bool publish(mc::Ctx& c, Ends& e, const Frame& f, const char* known = nullptr)
{
    const bool video = e.codec != Codec::Opus;
    const auto pts = 1000000 + static_cast<int64_t>(e.frames) * 33333;
    e.frames += 1;
    env::advanceMs(33);
    const auto packets = e.packetizer->generate(e.sources, e.cfg.overhead, pts, toBuf(f.bytes));
    c.step();
    const auto label = describe(f.units) + " ext " + kExtNames[e.cfg.ext] + " padding " + std::to_string(e.cfg.padding) + " overhead " +
                       std::to_string(e.cfg.overhead);
    c.log("frame %d: %s: %zu packets", e.frames, label.c_str(), packets.size());
    const auto bad = [&](const char* prop, const char* key, bool cond, const std::string& what) {
        // What the listed findings are about: a unit is missing at the other end, or the first packet is not recognised
        const std::string k = key;
        const bool mayBeKnown = known && (k == "units" || k == "delivered-units" || k == "delivered" || k == "frame-start");
        if (!cond && mayBeKnown && c.tolerate(prop, known)) {
            return;
        }
        c.check(cond, prop, mayBeKnown ? known : key, "%s: %s", label.c_str(), what.c_str());
    };
    bad("M04", "no-packets", !packets.empty(), "no packets");
    bad("M05", "no-packets", !packets.empty(), "no packets");
    if (packets.empty()) {
        return false;
    }

    std::vector<std::shared_ptr<RtpPacket>> received;
    for (size_t i = 0; i < packets.size(); i += 1) {
        const auto& p = packets[i];
        const auto at = "packet " + std::to_string(i) + " of " + std::to_string(packets.size()) + ": ";
        const auto out = p->generate();
        c.step();
        bad("M05", "size", out.buf.size() + e.cfg.overhead <= kLimit, at + "size is " + std::to_string(out.buf.size() + e.cfg.overhead));
        bad("M05", "timestamp", p->getTimestamp() == packets[0]->getTimestamp(), at + "another timestamp");
        if (e.lastSeq) {
            bad("M05", "sequence", p->getSequence() == static_cast<uint16_t>(*e.lastSeq + 1), at + "sequence " + std::to_string(p->getSequence()));
        }
        e.lastSeq = p->getSequence();
        if (video) {
            bad("M05", "marker", p->getMarker() == (i + 1 == packets.size()), at + "marker is " + std::to_string(p->getMarker()));
        }

        // Over the wire
        const auto q = RtpPacket::fromUdpPacket(e.sub, out.buf);
        bad("M04", "parse", q != nullptr, at + "cannot be parsed");
        if (!q) {
            return false;
        }
        received.push_back(q);
        const auto kind = e.depacketizer->getPacketKind(q->getPayload(), q->getMarker());
        const bool starts = kind == PacketKind::Start || kind == PacketKind::Standalone;
        if (video) {
            // After a delimiter the next packet can look like a start too
            const bool delimited = !f.units.empty() && i == 1 &&
                                   ((e.codec == Codec::H264 && f.units[0].type == 9) || (e.codec == Codec::H265 && f.units[0].type == 35));
            bad("M05", "frame-start", delimited || starts == (i == 0), at + "start is " + std::to_string(starts));
        }
        const bool wants = e.cfg.ext == 1 || e.cfg.ext == 4 || e.cfg.ext == 5 || (e.cfg.ext == 2 && i == 0) || (e.cfg.ext == 3 && f.key && i == 0);
        if (wants) {
            const auto v = q->getExtension().findU16(3);
            bad("M05", "extension", v.has_value(), at + "no extension");
            if (e.cfg.ext == 4) {
                const auto w = q->getExtension().findU64(14);
                bad("M05", "extension", w.has_value() && *w == 0x0102030405060708ull, at + "no second extension");
            }
            if (e.cfg.ext == 5) {
                const auto w = q->getExtension().findAny(9);
                const auto w2 = q->getExtension().findAny(10);
                bad("M05", "extension", w.has_value() && w->size == 200 && w2.has_value() && w2->size == 99, at + "no large extension");
            }
        }
        e.h = mc::mix(e.h, mcu::hashBytes(toBytes(out.buf)));
    }
    // What the payload's first octet says
    if (e.codec == Codec::AV1 || e.codec == Codec::VP8 || e.codec == Codec::VP9) {
        bool continues = false;
        for (size_t i = 0; i < received.size(); i += 1) {
            const auto b = toBytes(received[i]->getPayload());
            const auto at = "packet " + std::to_string(i) + " of " + std::to_string(received.size()) + ": octet " + std::to_string(b.empty() ? -1 : b[0]) + ": ";
            const bool first = i == 0, last = i + 1 == received.size();
            if (e.codec == Codec::AV1) {
                bool sequenceHeader = false;
                for (const auto& u : f.units) {
                    sequenceHeader = sequenceHeader || u.type == 1;
                }
                bad("M05", "octet", !b.empty() && ((b[0] & 0x80) != 0) == continues, at + "continues a unit (or not), the packet before says otherwise");
                continues = !b.empty() && (b[0] & 0x40) != 0;
                bad("M05", "octet", !last || !continues, at + "the last unit goes on");
                bad("M05", "octet", !b.empty() && ((b[0] & 0x08) != 0) == (first && sequenceHeader), at + "the start of a coded video sequence is not told right");
            } else if (e.codec == Codec::VP8) {
                bad("M05", "octet", !b.empty() && ((b[0] & 0x17) == 0x10) == first, at + "the start of the first partition is not told right");
            } else {
                bad("M05", "octet", !b.empty() && ((b[0] & 0x08) != 0) == first && ((b[0] & 0x04) != 0) == last, at + "the start or the end of the frame is not told right");
            }
        }
    }
    if (e.codec == Codec::VP9) {
        std::optional<uint16_t> id;
        for (const auto& q : received) {
            const auto b = toBytes(q->getPayload());
            if (b.size() > 2 && b[0] & 0x80) {
                const auto v = b[1] & 0x80 ? static_cast<uint16_t>((b[1] & 0x7f) << 8 | b[2]) : b[1];
                bad("M05", "picture-id", !id || *id == v, "packets of one frame have picture ids " + std::to_string(id.value_or(0)) + " and " + std::to_string(v));
                id = v;
            }
        }
        if (id && e.lastId) {
            bad("M05", "picture-id", *id == ((*e.lastId + 1) & 0x7fff), "picture id " + std::to_string(*id) + " after " + std::to_string(*e.lastId));
        }
        e.lastId = id;
    }
    if (e.lastTs) {
        bad("M05", "timestamp", packets[0]->getTimestamp() != *e.lastTs, "the timestamp is that of the frame before");
    }
    e.lastTs = packets[0]->getTimestamp();

    // The depacketizer alone
    std::vector<std::unique_ptr<JitterBufferItem>> items;
    std::vector<const JitterBufferItem*> list;
    for (const auto& q : received) {
        auto item = std::make_unique<JitterBufferItem>();
        item->received = true;
        item->seq_ext = q->getSequence();
        item->rtp_timestamp_ext = q->getTimestamp();
        item->marker = q->getMarker();
        item->payload = q->getPayload().copy();
        list.push_back(item.get());
        items.push_back(std::move(item));
    }
    std::vector<ByteBuffer> out;
    e.depacketizer->extract(out, list);
    c.step();
    bad("M04", "frame-count", out.size() == 1, std::to_string(out.size()) + " frames come out of the depacketizer");
    if (out.size() == 1) {
        std::vector<Unit> got;
        const bool ok = parseFrame(e.codec, toBytes(out[0]), got);
        bad("M04", "units", ok && got == f.units, "comes out of the depacketizer as " + (ok ? describe(got) : "garbage"));
    }

    // And in the jitter buffer
    for (const auto& q : received) {
        e.jb->consume(q);
    }
    env::advanceMs(150);
    const auto frames = e.jb->processDeque();
    c.step();
    bad("M04", "delivered", frames.size() == 1, std::to_string(frames.size()) + " frames come out of the jitter buffer");
    if (frames.size() == 1) {
        std::vector<Unit> got;
        const bool ok = parseFrame(e.codec, toBytes(frames[0]->data), got);
        bad("M04", "delivered-units", ok && got == f.units, "comes out of the jitter buffer as " + (ok ? describe(got) : "garbage"));
        e.h = mc::mix(e.h, mcu::hashBytes(toBytes(frames[0]->data)));
    }
    c.state(e.h);
    return true;
}

// ----- Scenarios

Config chooseConfig(mc::Ctx& c)
{
    Config cfg;
    const size_t overheads[] = { 16, 4, 10 };
    const uint8_t paddings[] = { 0, 1, 60, 255 };
    cfg.ext = c.choose(6, "extension");
    cfg.padding = paddings[c.choose(4, "padding")];
    cfg.overhead = overheads[c.choose(2, "overhead")];
    return cfg;
}

// Payload bytes available in a packet with this configuration
size_t room(const Config& cfg)
{
    return kLimit - 12 - cfg.overhead - cfg.padding - extSize(cfg);
}

std::vector<size_t> sizeGrid(const Config& cfg, size_t smallest, bool full)
{
    std::vector<size_t> r;
    const auto add = [&](size_t v) {
        if (v >= smallest && std::find(r.begin(), r.end(), v) == r.end()) {
            r.push_back(v);
        }
    };
    const auto l = room(cfg);
    const auto l0 = room({ cfg.overhead, 0, 0, false });
    add(smallest);
    if (full) {
        for (size_t d = 0; d <= 16; d += 1) {
            add(l - 8 + d);
            add(2 * l - 10 + d);
            add(l0 - 8 + d);
        }
        for (size_t v : { 3, 4, 10, 99, 100, 101, 299, 300, 301, 600 }) {
            add(v);
        }
        add(3 * l - 9);
        add(3 * l - 6);
        add(3 * l);
        add(5000);
    } else {
        for (size_t v : { 60, 150 }) {
            add(v);
        }
        add(l - 103);
        add(l - 20);
        add(l - 2);
        add(l);
        add(l + 1);
        add(2 * l - 4);
        add(2 * l + 40);
    }
    return r;
}

size_t pick(mc::Ctx& c, const std::vector<size_t>& grid, const char* what)
{
    return grid[static_cast<size_t>(c.choose(static_cast<int>(grid.size()), what))];
}

// A frame with one unit of every size, for all codecs, after a key frame
Frame simpleFrame(mc::Ctx& c, Codec codec, bool key, size_t size, uint64_t tag, int startCode = 4)
{
    Frame f;
    f.key = key;
    switch (codec) {
    case Codec::H264:
        if (key) {
            addNalu(f, h264Nalu(c, tag + 1, 7, 14, false), 7, startCode);
            addNalu(f, h264Nalu(c, tag + 2, 8, 5, false), 8, startCode);
            addNalu(f, h264Nalu(c, tag + 3, 5, size, true), 5, startCode);
        } else {
            addNalu(f, h264Nalu(c, tag + 4, 1, size, true), 1, startCode);
        }
        break;
    case Codec::H265:
        if (key) {
            addNalu(f, h265Nalu(c, tag + 1, 32, 9, false), 32, startCode);
            addNalu(f, h265Nalu(c, tag + 2, 33, 15, false), 33, startCode);
            addNalu(f, h265Nalu(c, tag + 3, 34, 6, false), 34, startCode);
            addNalu(f, h265Nalu(c, tag + 4, 19, size, true), 19, startCode);
        } else {
            addNalu(f, h265Nalu(c, tag + 5, 1, size, true), 1, startCode);
        }
        break;
    case Codec::AV1: {
        addObu(f, {}, 2, 0, 0, kObuSize);
        if (key) {
            addObu(f, content(c, tag + 1, 11), 1, 0, 0, kObuSize);
        }
        auto d = content(c, tag + 2, size);
        d[0] = static_cast<uint8_t>(key ? 0x10 : 0x30);
        addObu(f, d, 6, 0, 0, kObuSize);
        break;
    }
    case Codec::VP8:
        f.bytes = content(c, tag, size);
        f.bytes[0] = static_cast<uint8_t>((f.bytes[0] & ~1) | (key ? 0 : 1));
        f.units.push_back({ 0, f.bytes, 0, 0 });
        break;
    case Codec::VP9:
        f.bytes = content(c, tag, size);
        f.bytes[0] = key ? 0x82 : 0x86;
        f.units.push_back({ 0, f.bytes, 0, 0 });
        break;
    default:
        f.bytes = content(c, tag, size);
        f.units.push_back({ 0, f.bytes, 0, 0 });
        break;
    }
    return f;
}

void runSizes(mc::Ctx& c, Codec codec)
{
    env::reset(c.seed());
    env::setUs(5'000'000);
    auto cfg = chooseConfig(c);
    if (codec == Codec::Opus) {
        // No padding and no key frames
        cfg.padding = 0;
        if (cfg.ext == 3) {
            cfg.ext = 0;
        }
    }
    auto e = makeEnds(codec, cfg);
    const size_t smallest = codec == Codec::H265 || codec == Codec::VP8 ? 3 : codec == Codec::Opus ? 1 : 2;
    auto grid = sizeGrid(cfg, smallest, true);
    if (codec == Codec::Opus) {
        // Not split, only what fits is a well-formed frame for RTP
        while (!grid.empty()) {
            const auto it = std::find_if(grid.begin(), grid.end(), [&](size_t s) { return s > room(cfg); });
            if (it == grid.end()) {
                break;
            }
            grid.erase(it);
        }
    }
    const bool key = c.flip("key");
    const auto size = pick(c, grid, "size");
    const int startCode = codec == Codec::H264 || codec == Codec::H265 ? 3 + c.choose(2, "start code") : 4;
    if (!key) {
        publish(c, e, simpleFrame(c, codec, true, 40, 100));
    }
    publish(c, e, simpleFrame(c, codec, key, size, 200, startCode));
    // The next ones are not disturbed
    publish(c, e, simpleFrame(c, codec, false, size, 300));
    publish(c, e, simpleFrame(c, codec, true, 700, 400, startCode));
    c.outcome(e.h);
}

// Several units in one frame, in every combination of sizes
void runUnits(mc::Ctx& c, Codec codec)
{
    env::reset(c.seed());
    env::setUs(5'000'000);
    Config cfg;
    const int which = c.choose(5, "config");
    cfg.ext = which == 0 ? 0 : which == 1 ? 1 : which == 2 ? 4 : which == 3 ? 2 : 3;
    cfg.padding = which == 2 ? 60 : which == 4 ? 255 : 0;
    cfg.overhead = which == 3 ? 4 : 16;
    auto e = makeEnds(codec, cfg);
    const auto grid = sizeGrid(cfg, 3, false);
    const bool key = c.flip("key");
    const int count = 2 + c.choose(c.thorough() ? 3 : 2, "units");
    if (!key) {
        publish(c, e, simpleFrame(c, codec, true, 40, 100));
    }
    Frame f;
    f.key = key;
    if (codec == Codec::AV1) {
        const int ids = c.choose(3, "layer ids");
        const int temporal = ids == 1 ? 1 : 0;
        const int spatial = ids == 2 ? 2 : 0;
        addObu(f, {}, 2, 0, 0, kObuSize);
        if (key) {
            addObu(f, content(c, 11, 11), 1, 0, 0, kObuSize);
        }
        for (int i = 0; i < count; i += 1) {
            auto d = content(c, 20 + static_cast<uint64_t>(i), pick(c, grid, "size"));
            d[0] = static_cast<uint8_t>(key ? 0x10 : 0x30);
            // A frame followed by tile groups, metadata in between
            const int type = i == 0 ? 3 : (i == 1 && count > 2) ? 5 : 4;
            const auto form = i == count - 1 && c.flip("no size in the last") ? kObuNoSize : i == 1 ? kObuLongSize : kObuSize;
            addObu(f, d, type, temporal, spatial, form);
        }
    } else if (codec == Codec::H264) {
        if (key) {
            addNalu(f, h264Nalu(c, 1, 7, 14, false), 7, 4);
            addNalu(f, h264Nalu(c, 2, 8, 5, false), 8, 3);
        }
        for (int i = 0; i < count; i += 1) {
            addNalu(f, h264Nalu(c, 20 + static_cast<uint64_t>(i), key ? 5 : 1, pick(c, grid, "size"), i == 0), key ? 5 : 1, 3 + (i & 1));
        }
    } else {
        if (key) {
            addNalu(f, h265Nalu(c, 1, 32, 9, false), 32, 4);
            addNalu(f, h265Nalu(c, 2, 33, 20, false), 33, 3);
            addNalu(f, h265Nalu(c, 3, 34, 6, false), 34, 4);
        }
        for (int i = 0; i < count; i += 1) {
            const int keyType = 19 + (which % 3);
            addNalu(f, h265Nalu(c, 20 + static_cast<uint64_t>(i), key ? keyType : 1, pick(c, grid, "size"), i == 0), key ? keyType : 1, 3 + (i & 1));
        }
    }
    publish(c, e, f);
    publish(c, e, simpleFrame(c, codec, false, 50, 300));
    c.outcome(e.h);
}

// Parameter sets from outside the frame, and units which are not slices
// So long a stream that sequence numbers and identifiers start over
void runLong(mc::Ctx& c, Codec codec)
{
    env::reset(c.seed());
    env::setUs(5'000'000);
    Config cfg;
    cfg.overhead = 16;
    auto e = makeEnds(codec, cfg);
    const int every = c.thorough() ? c.choose(2, "key frames") : 0;
    publish(c, e, simpleFrame(c, codec, true, 40, 100));
    for (int i = 0; i < 66000; i += 1) {
        const bool key = codec != Codec::Opus && i % (every ? 50 : 997) == 0;
        publish(c, e, simpleFrame(c, codec, key, i % 1009 == 5 && codec != Codec::Opus ? 2500 : 12, static_cast<uint64_t>(i % 300)));
    }
    c.outcome(e.h);
}

void runExtras(mc::Ctx& c, Codec codec)
{
    env::reset(c.seed());
    env::setUs(5'000'000);
    Config cfg;
    cfg.ext = c.choose(3, "extension");
    auto e = makeEnds(codec, cfg);
    const bool h265 = codec == Codec::H265;
    const auto nalu = [&](uint64_t tag, int type, size_t size, bool first) {
        return h265 ? h265Nalu(c, tag, type, size, first) : h264Nalu(c, tag, type, size, first);
    };
    const int vps = 32, sps = h265 ? 33 : 7, pps = h265 ? 34 : 8, sei = h265 ? 39 : 6, aud = h265 ? 35 : 9;
    const int idr = h265 ? 20 : 5;
    const size_t sizes[] = { 20, 1300 };
    const auto seiSize = sizes[c.choose(2, "SEI size")];
    const auto size = sizes[c.choose(2, "size")];
    const auto params = [&](Frame& f, uint64_t tag) {
        if (h265) {
            addNalu(f, nalu(tag, vps, 8, false), vps, 4);
        }
        addNalu(f, nalu(tag + 1, sps, 20, false), sps, 4);
        addNalu(f, nalu(tag + 2, pps, 6, false), pps, 4);
    };
    Frame base;
    base.key = true;
    params(base, 600);
    addNalu(base, nalu(610, idr, 33, true), idr, 4);

    const int kind = c.choose(6, "kind");
    Frame f;
    const char* known = nullptr;
    switch (kind) {
    case 0: {
        // Given once as codec specific data, key frames come without them
        std::vector<ByteBuffer> csd;
        Frame p;
        params(p, 600);
        csd.push_back(toBuf(p.bytes));
        e.packetizer->setCodecSpecificData(csd);
        f.key = true;
        addNalu(f, nalu(610, idr, size, true), idr, 4);
        addNalu(f, nalu(611, idr, seiSize, false), idr, 3);
        f.units.insert(f.units.begin(), p.units.begin(), p.units.end());
        break;
    }
    case 1:
        // A later key frame with other parameters
        publish(c, e, base);
        f.key = true;
        params(f, 700);
        addNalu(f, nalu(710, idr, size, true), idr, 4);
        break;
    case 2:
        // SEI after the parameters
        f.key = true;
        params(f, 700);
        addNalu(f, nalu(705, sei, seiSize, false), sei, 4);
        addNalu(f, nalu(710, idr, size, true), idr, 4);
        break;
    case 3:
        // SEI before a slice
        publish(c, e, base);
        addNalu(f, nalu(705, sei, seiSize, false), sei, 4);
        addNalu(f, nalu(710, 1, size, true), 1, 4);
        known = "unit-before-slice";
        break;
    case 4:
        // Access unit delimiters
        f.key = true;
        addNalu(f, nalu(704, aud, 3, false), aud, 4);
        params(f, 700);
        addNalu(f, nalu(710, idr, size, true), idr, 4);
        break;
    default:
        // Parameters which change before a frame that is not a key frame
        publish(c, e, base);
        addNalu(f, nalu(702, pps, 7, false), pps, 4);
        addNalu(f, nalu(710, 1, size, true), 1, 4);
        known = "parameters-in-delta-frame";
        break;
    }
    publish(c, e, f, known);
    publish(c, e, simpleFrame(c, codec, false, size, 900));
    c.outcome(e.h);
}

// ----- Frames packetized by someone else

struct Wire {
    Bytes payload;
    bool marker = false;
};

void put16(Bytes& b, size_t v)
{
    b.push_back(static_cast<uint8_t>(v >> 8));
    b.push_back(static_cast<uint8_t>(v));
}

void putLeb(Bytes& b, size_t v)
{
    while (v >= 0x80) {
        b.push_back(static_cast<uint8_t>(0x80 | (v & 0x7f)));
        v >>= 7;
    }
    b.push_back(static_cast<uint8_t>(v));
}

// RFC 6184, RFC 7798: each unit alone, aggregated with the ones before it, or in fragments
std::vector<Wire> foreignNalus(mc::Ctx& c, const std::vector<Unit>& units, bool h265, bool sei)
{
    const size_t hdr = h265 ? 2 : 1;
    std::vector<Wire> r;
    bool inAggregate = false;
    for (const auto& u : units) {
        // 0: single, 1: new aggregate, 2: the same aggregate, 3: two fragments, 4: three fragments
        // A leading SEI message is only recognised as the start of a frame together with the first slice
        const int how = sei && &u == &units[0] ? 1 : sei && &u == &units[1] ? 2 : c.choose(5, "form");
        if (how == 2 && !inAggregate) {
            c.abandon();
        }
        if (how >= 3 && u.data.size() < hdr + 4) {
            c.abandon();
        }
        if (how == 0) {
            r.push_back({ u.data, false });
        } else if (how == 1 || how == 2) {
            if (how == 1) {
                r.push_back({ h265 ? Bytes{ 48 << 1, 1 } : Bytes{ 0x78 }, false });
            }
            put16(r.back().payload, u.data.size());
            r.back().payload.insert(r.back().payload.end(), u.data.begin(), u.data.end());
        } else {
            const size_t count = static_cast<size_t>(how) - 1;
            const size_t total = u.data.size() - hdr;
            // One byte in the first one, the rest shared out
            size_t pos = 0;
            for (size_t i = 0; i < count; i += 1) {
                const size_t n = i == count - 1 ? total - pos : i == 0 ? 1 : (total - pos) / 2;
                Bytes b;
                const uint8_t se = (i == 0 ? 0x80 : 0) | (i == count - 1 ? 0x40 : 0);
                if (h265) {
                    b.push_back(static_cast<uint8_t>((u.data[0] & 0x81) | (49 << 1)));
                    b.push_back(u.data[1]);
                    b.push_back(static_cast<uint8_t>(se | u.type));
                } else {
                    b.push_back(static_cast<uint8_t>((u.data[0] & 0xe0) | 28));
                    b.push_back(static_cast<uint8_t>(se | u.type));
                }
                b.insert(b.end(), u.data.begin() + static_cast<long>(hdr + pos), u.data.begin() + static_cast<long>(hdr + pos + n));
                pos += n;
                r.push_back({ b, false });
            }
        }
        inAggregate = how == 1 || how == 2;
    }
    r.back().marker = true;
    return r;
}

Bytes obuElement(const Unit& u)
{
    const bool ext = u.temporal != 0 || u.spatial != 0;
    Bytes b;
    b.push_back(static_cast<uint8_t>((u.type << 3) | (ext ? 4 : 0)));
    if (ext) {
        b.push_back(static_cast<uint8_t>((u.temporal << 5) | (u.spatial << 3)));
    }
    b.insert(b.end(), u.data.begin(), u.data.end());
    return b;
}

// The AV1 RTP specification: elements, split anywhere, put into packets with or without the count of elements
std::vector<Wire> foreignObus(mc::Ctx& c, const std::vector<Unit>& units, bool key)
{
    struct Piece {
        Bytes bytes;
        bool z, y;
    };
    std::vector<std::vector<Piece>> packets(1);
    for (const auto& u : units) {
        const auto el = obuElement(u);
        // 0: same packet, 1: new packet, 2: split, 3: split in three; the first part goes to the current packet
        const int how = c.choose(4, "form");
        if (how == 1 && packets.back().empty()) {
            c.abandon();
        }
        if (how == 1) {
            packets.emplace_back();
        }
        if (how <= 1) {
            packets.back().push_back({ el, false, false });
        } else {
            if (el.size() < 5) {
                c.abandon();
            }
            const int first = 2 + c.choose(2, "split");
            size_t pos = 0;
            for (int i = 0; i < how; i += 1) {
                const size_t n = i == how - 1 ? el.size() - pos : i == 0 ? static_cast<size_t>(first) : 1;
                packets.back().push_back({ Bytes(el.begin() + static_cast<long>(pos), el.begin() + static_cast<long>(pos + n)), i > 0, i < how - 1 });
                pos += n;
                if (i < how - 1) {
                    packets.emplace_back();
                }
            }
        }
    }
    std::vector<Wire> r;
    const bool counted = c.flip("W");
    for (size_t k = 0; k < packets.size(); k += 1) {
        const auto& p = packets[k];
        const size_t w = counted && p.size() <= 3 ? p.size() : 0;
        Bytes b;
        b.push_back(static_cast<uint8_t>((p.front().z ? 0x80 : 0) | (p.back().y ? 0x40 : 0) | (w << 4) | (key && k == 0 ? 8 : 0)));
        for (size_t i = 0; i < p.size(); i += 1) {
            if (w == 0 || i + 1 < w) {
                putLeb(b, p[i].bytes.size());
            }
            b.insert(b.end(), p[i].bytes.begin(), p[i].bytes.end());
        }
        r.push_back({ b, k + 1 == packets.size() });
    }
    return r;
}

// VP8 and VP9 descriptors other senders use; the content is passed on as it is
std::vector<Wire> foreignVpx(mc::Ctx& c, const Bytes& frame, bool vp9, bool key)
{
    const int count = 1 + c.choose(3, "packets");
    const int form = c.choose(vp9 ? 8 : 6, "descriptor");
    std::vector<Wire> r;
    size_t pos = 0;
    for (int i = 0; i < count; i += 1) {
        const size_t n = i == count - 1 ? frame.size() - pos : i == 0 ? 3 : (frame.size() - pos) / 2;
        const bool first = i == 0, last = i == count - 1;
        Bytes b;
        if (vp9) {
            // RFC 9628: I P L F B E V Z
            const uint8_t base = static_cast<uint8_t>((key ? 0 : 0x40) | (first ? 8 : 0) | (last ? 4 : 0));
            switch (form) {
            case 0:
                b = { base };
                break;
            case 1:
                b = { static_cast<uint8_t>(base | 0x80), 0x12 };
                break;
            case 2:
                b = { static_cast<uint8_t>(base | 0x80), 0x92, 0x34 };
                break;
            case 3:
                // Layers, not flexible
                b = { static_cast<uint8_t>(base | 0xa0), 0x92, 0x34, 0x00, 0x77 };
                break;
            case 7:
                // The same with a dependency on the lower spatial layer
                b = { static_cast<uint8_t>(base | 0xa0), 0x92, 0x34, 0x01, 0x77 };
                break;
            case 4:
                // Flexible, with references unless it is a key frame
                b = { static_cast<uint8_t>(base | 0x90), 0x92, 0x34 };
                if (!key) {
                    b.push_back(0x03);
                    b.push_back(0x04);
                }
                break;
            case 5:
                // Layers, flexible
                b = { static_cast<uint8_t>(base | 0xb0), 0x92, 0x34, 0x00 };
                if (!key) {
                    b.push_back(0x02);
                }
                break;
            default:
                // Scalability structure, sizes and a picture group
                b = { static_cast<uint8_t>(base | 0x80 | (key && first ? 2 : 0)), 0x92, 0x34 };
                if (key && first) {
                    for (uint8_t x : { 0x18, 0x02, 0x80, 0x01, 0xe0, 0x02, 0x04, 0x01, 0x28, 0x01, 0x02 }) {
                        b.push_back(x);
                    }
                }
                break;
            }
        } else {
            // RFC 7741: X R N S R PID
            const uint8_t base = first ? 0x10 : 0;
            switch (form) {
            case 0:
                b = { base };
                break;
            case 1:
                b = { static_cast<uint8_t>(base | 0x80), 0x80, 0x12 };
                break;
            case 2:
                b = { static_cast<uint8_t>(base | 0x80), 0x80, 0x92, 0x34 };
                break;
            case 3:
                b = { static_cast<uint8_t>(base | 0x80), 0xc0, 0x92, 0x34, 0x55 };
                break;
            case 4:
                b = { static_cast<uint8_t>(base | 0x80), 0xf0, 0x92, 0x34, 0x55, 0x61 };
                break;
            default:
                b = { static_cast<uint8_t>(base | 0x80), 0x20, 0x41 };
                break;
            }
        }
        b.insert(b.end(), frame.begin() + static_cast<long>(pos), frame.begin() + static_cast<long>(pos + n));
        pos += n;
        r.push_back({ b, last });
    }
    return r;
}

void runForeign(mc::Ctx& c, Codec codec)
{
    env::reset(c.seed());
    env::setUs(5'000'000);
    auto e = makeEnds(codec, Config());
    uint16_t seq = 65534;
    uint32_t ts = 0xfffffe00;

    // A key frame, then the one in question, then one more
    for (int n = 0; n < 3; n += 1) {
        Frame f;
        std::vector<Wire> wire;
        const bool simple = n != 1;
        f.key = n == 0 || (n == 1 && c.flip("key"));
        if (codec == Codec::H264 || codec == Codec::H265) {
            const bool h265 = codec == Codec::H265;
            const auto nalu = [&](uint64_t tag, int type, size_t size, bool first) {
                addNalu(f, h265 ? h265Nalu(c, tag, type, size, first) : h264Nalu(c, tag, type, size, first), type, 4);
            };
            if (f.key) {
                if (h265) {
                    nalu(101, 32, 8, false);
                }
                nalu(102, h265 ? 33 : 7, 12, false);
                nalu(103, h265 ? 34 : 8, 4, false);
            }
            const int type = h265 ? (f.key ? 19 : 1) : f.key ? 5 : 1;
            const bool sei = !simple && !f.key && c.flip("SEI");
            if (sei) {
                nalu(105, h265 ? 39 : 6, 7, false);
            }
            const int slices = simple ? 1 : 1 + c.choose(3, "slices");
            for (int i = 0; i < slices; i += 1) {
                nalu(110 + static_cast<uint64_t>(10 * n + i), type, i == 0 ? 30 : 11, i == 0);
            }
            if (simple) {
                for (const auto& u : f.units) {
                    wire.push_back({ u.data, false });
                }
                wire.back().marker = true;
            } else {
                wire = foreignNalus(c, f.units, h265, sei);
            }
        } else if (codec == Codec::AV1) {
            const int ids = simple ? 0 : c.choose(2, "layer ids");
            if (f.key) {
                addObu(f, content(c, 11, 6), 1, ids, ids, kObuSize);
            }
            const int count = simple ? 1 : 1 + c.choose(3, "units");
            for (int i = 0; i < count; i += 1) {
                auto d = content(c, 20 + static_cast<uint64_t>(10 * n + i), i == 0 ? 9 : 130);
                d[0] = static_cast<uint8_t>(f.key ? 0x10 : 0x30);
                addObu(f, d, i == 0 ? (count > 1 ? 3 : 6) : i == 2 ? 5 : 4, ids, ids, kObuSize);
            }
            if (simple) {
                Bytes b{ static_cast<uint8_t>(f.key ? 8 : 0) };
                for (const auto& u : f.units) {
                    const auto el = obuElement(u);
                    putLeb(b, el.size());
                    b.insert(b.end(), el.begin(), el.end());
                }
                wire.push_back({ b, true });
            } else {
                wire = foreignObus(c, f.units, f.key);
            }
        } else {
            f = simpleFrame(c, codec, f.key, 40, 100 + static_cast<uint64_t>(n));
            if (simple) {
                Bytes b{ static_cast<uint8_t>(codec == Codec::VP9 ? (f.key ? 0x0c : 0x4c) : 0x10) };
                b.insert(b.end(), f.bytes.begin(), f.bytes.end());
                wire.push_back({ b, true });
            } else {
                wire = foreignVpx(c, f.bytes, codec == Codec::VP9, f.key);
            }
        }

        std::string label = describe(f.units) + " in";
        std::vector<std::shared_ptr<RtpPacket>> received;
        std::vector<std::unique_ptr<JitterBufferItem>> items;
        std::vector<const JitterBufferItem*> list;
        uint64_t h = 0;
        for (const auto& w : wire) {
            label += " " + (w.payload.size() <= 16 ? mcu::hex(w.payload) : mcu::hex(Bytes(w.payload.begin(), w.payload.begin() + 12)) + "..") + (w.marker ? "/m" : "");
            received.push_back(std::make_shared<RtpPacket>(e.sub, w.marker, 0, seq, ts, 0, toBuf(w.payload)));
            auto item = std::make_unique<JitterBufferItem>();
            item->received = true;
            item->seq_ext = seq;
            item->rtp_timestamp_ext = ts;
            item->marker = w.marker;
            item->payload = toBuf(w.payload);
            list.push_back(item.get());
            items.push_back(std::move(item));
            seq += 1;
            h = mc::mix(h, mcu::hashBytes(w.payload));
        }
        ts += 3000;
        c.log("%s", label.c_str());
        c.state(h);

        std::vector<ByteBuffer> out;
        e.depacketizer->extract(out, list);
        c.step();
        c.check(out.size() == 1, "M04", "foreign-count", "%s: %zu frames come out of the depacketizer", label.c_str(), out.size());
        if (out.size() == 1) {
            std::vector<Unit> got;
            const bool ok = parseFrame(codec, toBytes(out[0]), got);
            c.check(ok && got == f.units, "M04", "foreign-units", "%s: comes out of the depacketizer as %s", label.c_str(),
                    ok ? describe(got).c_str() : "garbage");
        }
        for (const auto& q : received) {
            e.jb->consume(q);
        }
        env::advanceMs(150);
        const auto frames = e.jb->processDeque();
        c.step();
        c.check(frames.size() == 1, "M04", "foreign-delivered", "%s: %zu frames come out of the jitter buffer", label.c_str(), frames.size());
        if (frames.size() == 1) {
            std::vector<Unit> got;
            const bool ok = parseFrame(codec, toBytes(frames[0]->data), got);
            c.check(ok && got == f.units, "M04", "foreign-delivered-units", "%s: comes out of the jitter buffer as %s", label.c_str(),
                    ok ? describe(got).c_str() : "garbage");
            e.h = mc::mix(e.h, mcu::hashBytes(toBytes(frames[0]->data)));
        }
    }
    c.outcome(e.h);
}

} // namespace

namespace mc
{

void registerScenarios(bool)
{
    env::quiet();
    const struct {
        const char* name;
        Codec codec;
    } codecs[] = {
        { "h264", Codec::H264 }, { "h265", Codec::H265 }, { "av1", Codec::AV1 }, { "vp8", Codec::VP8 }, { "vp9", Codec::VP9 }, { "opus", Codec::Opus },
    };
    for (const auto& k : codecs) {
        const auto codec = k.codec;
        const std::string n = k.name;
        add("long-" + n, { "M04", "M05" }, 0, 0, [codec](Ctx& c) { runLong(c, codec); }, false, 200);
        add("sizes-" + n, { "M04", "M05" }, 0, 0, [codec](Ctx& c) { runSizes(c, codec); });
        if (codec == Codec::H264 || codec == Codec::H265 || codec == Codec::AV1) {
            add("units-" + n, { "M04", "M05" }, 0, 0, [codec](Ctx& c) { runUnits(c, codec); });
        }
        if (codec != Codec::Opus) {
            add("foreign-" + n, { "M04" }, 0, 0, [codec](Ctx& c) { runForeign(c, codec); });
        }
        if (codec == Codec::H264 || codec == Codec::H265) {
            add("extras-" + n, { "M04", "M05" }, 0, 0, [codec](Ctx& c) { runExtras(c, codec); });
        }
    }
}

} // namespace mc
