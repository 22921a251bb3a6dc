// RTP packets, header extensions, time stamps, counters, and the containers underneath.
#include "util_mc.h"

#include "srtc/bit_reader.h"
#include "srtc/depacketizer.h"
#include "srtc/encoded_frame.h"
#include "srtc/extended_value.h"
#include "srtc/extension_map.h"
#include "srtc/jitter_buffer.h"
#include "srtc/packetizer.h"
#include "srtc/pool_allocator.h"
#include "srtc/rtp_extension.h"
#include "srtc/rtp_extension_builder.h"
#include "srtc/rtp_extension_source_abs_capture_time.h"
#include "srtc/rtp_extension_source_simulcast.h"
#include "srtc/rtp_packet.h"
#include "srtc/rtp_packet_source.h"
#include "srtc/rtp_std_extensions.h"
#include "srtc/rtp_time_source.h"
#include "srtc/simulcast_layer.h"
#include "srtc/temp_buffer.h"
#include "srtc/track_stats.h"

#include <algorithm>
#include <map>
#include <optional>
#include <set>

extern "C" size_t __sanitizer_get_current_allocated_bytes();

using mc::Ctx;
using namespace srtc;
using mcu::Bytes;
using mcu::hex;
using mcu::pattern;
using mcu::toBuf;
using mcu::toBytes;

namespace
{

// ----- Independent reading and writing of RTP, RFC 3550

struct Wire {
    bool ok = false;
    bool padBit = false;
    bool marker = false;
    int pt = 0;
    uint16_t seq = 0;
    uint32_t ts = 0;
    uint32_t ssrc = 0;
    std::vector<uint32_t> csrc;
    bool hasExt = false;
    uint16_t extId = 0;
    Bytes ext;
    Bytes payload;
    int padding = 0;
    bool zeroPadding = false;
};

uint16_t get16(const Bytes& b, size_t p)
{
    return static_cast<uint16_t>(b[p] << 8 | b[p + 1]);
}

uint32_t get32(const Bytes& b, size_t p)
{
    return static_cast<uint32_t>(get16(b, p)) << 16 | get16(b, p + 2);
}

void put16(Bytes& b, uint32_t v)
{
    b.push_back(static_cast<uint8_t>(v >> 8));
    b.push_back(static_cast<uint8_t>(v));
}

void put32(Bytes& b, uint32_t v)
{
    put16(b, v >> 16);
    put16(b, v & 0xffff);
}

Wire readWire(const Bytes& b)
{
    Wire w;
    if (b.size() < 12) {
        return w;
    }
    w.padBit = (b[0] & 0x20) != 0;
    const bool x = (b[0] & 0x10) != 0;
    const size_t cc = b[0] & 15;
    w.marker = (b[1] & 0x80) != 0;
    w.pt = b[1] & 0x7f;
    w.seq = get16(b, 2);
    w.ts = get32(b, 4);
    w.ssrc = get32(b, 8);
    size_t p = 12;
    if (b.size() < p + cc * 4) {
        return w;
    }
    for (size_t i = 0; i < cc; i += 1) {
        w.csrc.push_back(get32(b, p));
        p += 4;
    }
    if (x) {
        if (b.size() < p + 4) {
            return w;
        }
        w.hasExt = true;
        w.extId = get16(b, p);
        const size_t n = get16(b, p + 2) * 4u;
        p += 4;
        if (b.size() < p + n) {
            return w;
        }
        w.ext.assign(b.begin() + p, b.begin() + p + n);
        p += n;
    }
    size_t end = b.size();
    if (w.padBit) {
        if (end == p) {
            return w;
        }
        w.padding = b[end - 1];
        if (static_cast<size_t>(w.padding) > end - p) {
            return w;
        }
        w.zeroPadding = w.padding == 0;
        end -= w.padding;
    }
    w.payload.assign(b.begin() + p, b.begin() + end);
    w.ok = true;
    return w;
}

Bytes writeWire(const Wire& w)
{
    Bytes b;
    b.push_back(static_cast<uint8_t>(0x80 | (w.padding ? 0x20 : 0) | (w.hasExt ? 0x10 : 0) | w.csrc.size()));
    b.push_back(static_cast<uint8_t>((w.marker ? 0x80 : 0) | w.pt));
    put16(b, w.seq);
    put32(b, w.ts);
    put32(b, w.ssrc);
    for (const auto c : w.csrc) {
        put32(b, c);
    }
    if (w.hasExt) {
        put16(b, w.extId);
        put16(b, static_cast<uint32_t>(w.ext.size() / 4));
        b.insert(b.end(), w.ext.begin(), w.ext.end());
    }
    b.insert(b.end(), w.payload.begin(), w.payload.end());
    if (w.padding) {
        b.resize(b.size() + w.padding - 1, 0);
        b.push_back(static_cast<uint8_t>(w.padding));
    }
    return b;
}

// ----- Independent reading of header extensions, RFC 8285

struct Elements {
    std::vector<std::pair<int, Bytes>> list;
    // Where the standard says to stop, what follows is of no interest
    bool stopped = false;

    [[nodiscard]] std::vector<const Bytes*> find(int id) const
    {
        std::vector<const Bytes*> r;
        for (const auto& e : list) {
            if (e.first == id) {
                r.push_back(&e.second);
            }
        }
        return r;
    }
};

Elements readElements(uint16_t extId, const Bytes& b)
{
    Elements r;
    size_t p = 0;
    if (extId == 0xBEDE) {
        while (p < b.size()) {
            const auto v = b[p++];
            if (v == 0) {
                continue;
            }
            const int id = v >> 4;
            const size_t n = (v & 15) + 1u;
            if (id == 15 || id == 0) {
                r.stopped = true;
                break;
            }
            if (b.size() - p < n) {
                break;
            }
            r.list.push_back({ id, Bytes(b.begin() + p, b.begin() + p + n) });
            p += n;
        }
    } else if ((extId & 0xFFF0) == 0x1000) {
        while (p < b.size()) {
            const int id = b[p++];
            if (id == 0) {
                continue;
            }
            if (p == b.size()) {
                break;
            }
            const size_t n = b[p++];
            if (b.size() - p < n) {
                break;
            }
            r.list.push_back({ id, Bytes(b.begin() + p, b.begin() + p + n) });
            p += n;
        }
    }
    return r;
}

uint64_t number(const Bytes& b, size_t n)
{
    uint64_t v = 0;
    for (size_t i = 0; i < n; i += 1) {
        v = v << 8 | b[i];
    }
    return v;
}

// Looks up every id, one way and the other
void compareLookup(Ctx& c, const RtpExtension& ext, const Elements& ref, const char* when)
{
    for (int id = 1; id < 256; id += 1) {
        if (id > 18 && id != 77 && id != 100 && id != 200 && id < 253) {
            continue;
        }
        const auto found = ext.findAny(static_cast<uint8_t>(id));
        const auto wanted = ref.find(id);
        if (wanted.empty()) {
            if (!ref.stopped) {
                c.check(!found.has_value(), "M13", "found-absent", "%s: id %d is found but was not written", when, id);
            }
            continue;
        }
        c.check(found.has_value(), "M13", "not-found", "%s: id %d of %zu bytes is not found", when, id, wanted[0]->size());
        if (!found.has_value()) {
            continue;
        }
        const Bytes got(found->ptr, found->ptr + found->size);
        bool same = false;
        for (const auto w : wanted) {
            same = same || *w == got;
        }
        c.check(same, "M13", "value", "%s: id %d is %s, was written as %s", when, id, hex(got).c_str(), hex(*wanted[0]).c_str());
        const auto u16 = ext.findU16(static_cast<uint8_t>(id));
        const auto u32 = ext.findU32(static_cast<uint8_t>(id));
        const auto u64 = ext.findU64(static_cast<uint8_t>(id));
        c.check(u16.has_value() == (got.size() >= 2) && (!u16 || *u16 == number(got, 2)), "M13", "number", "%s: id %d as 16 bits", when, id);
        c.check(u32.has_value() == (got.size() >= 4) && (!u32 || *u32 == number(got, 4)), "M13", "number", "%s: id %d as 32 bits", when, id);
        c.check(u64.has_value() == (got.size() >= 8) && (!u64 || *u64 == number(got, 8)), "M13", "number", "%s: id %d as 64 bits", when, id);
    }
}

std::shared_ptr<Track> track(uint32_t ssrc, int pt, MediaType type = MediaType::Video, Codec codec = Codec::VP8)
{
    mcu::TrackSpec s;
    s.type = type;
    s.codec = codec;
    s.ssrc = ssrc;
    s.pt = static_cast<uint8_t>(pt);
    s.rtxSsrc = ssrc ^ 0x55;
    s.rtxPt = static_cast<uint8_t>(pt ^ 1);
    s.clock = type == MediaType::Audio ? 48000 : 90000;
    return mcu::makeTrack(s);
}

// ----- M07

void runRoundTrip(Ctx& c)
{
    env::reset(c.seed());
    const int sizes[] = { 0, 1, 2, 3, 4, 5, 100, 1199, 1200, 1201, 1400, 3000 };
    const int paddings[] = { 0, 1, 2, 3, 4, 200, 254, 255 };
    const uint16_t seqs[] = { 0, 1, 0x7fff, 0x8000, 0xfffe, 0xffff };
    const uint32_t words[] = { 0, 1, 0x7fffffff, 0x80000000, 0xffffffff };
    const int n = sizes[c.choose(12, "size")];
    const int ext = c.choose(11, "extension");
    for (const int pad : paddings) {
        for (const auto seq : seqs) {
            for (const auto ts : words) {
                for (int m = 0; m < 4; m += 1) {
                    const bool marker = (m & 1) != 0;
                    const uint32_t ssrc = (m & 2) != 0 ? 0xffffff00u + seq % 7 : 1u + seq % 5;
                    const int pt = (m & 2) != 0 ? 126 : 34;
                    const auto t = track(ssrc, pt, MediaType::Audio, Codec::Opus);
                    Wire w;
                    w.marker = marker;
                    w.pt = pt;
                    w.seq = seq;
                    w.ts = ts;
                    w.ssrc = ssrc;
                    w.padding = pad;
                    w.payload = pattern(c.seed(), n, n);
                    Bytes extData;
                    if (ext > 0) {
                        // Sizes around a multiple of four, in one- and two-byte format
                        const int len = ext <= 8 ? ext : ext == 9 ? 40 : 255;
                        w.extId = (ext & 1) != 0 && len <= 16 ? 0xBEDE : 0x1000;
                        if (w.extId == 0xBEDE) {
                            extData.push_back(static_cast<uint8_t>(3 << 4 | (len - 1)));
                        } else {
                            extData.push_back(3);
                            extData.push_back(static_cast<uint8_t>(len));
                        }
                        const auto v = pattern(c.seed(), 77, len);
                        extData.insert(extData.end(), v.begin(), v.end());
                        w.hasExt = true;
                        w.ext = extData;
                        while (w.ext.size() % 4) {
                            w.ext.push_back(0);
                        }
                    }
                    const RtpPacket packet(t, marker, 7, seq, ts, static_cast<uint8_t>(pad), ext > 0 ? RtpExtension(w.extId, toBuf(extData)) : RtpExtension(), toBuf(w.payload));
                    const auto out = packet.generate();
                    const auto bytes = toBytes(out.buf);
                    c.step();
                    c.check(out.rollover == 7, "M07", "rollover", "rollover %u", out.rollover);
                    c.check(bytes == writeWire(w), "M07", "serialized", "%zu bytes, expected %zu: %s", bytes.size(), writeWire(w).size(), hex(bytes).c_str());
                    const mcu::Exact exact(bytes);
                    const auto back = RtpPacket::fromUdpPacket(t, ByteBuffer{ exact.data(), exact.size() });
                    c.check(back != nullptr, "M07", "not-parsed", "payload %d, padding %d, extension %zu", n, pad, w.ext.size());
                    if (!back) {
                        continue;
                    }
                    c.check(back->getMarker() == marker && back->getSequence() == seq && back->getTimestamp() == ts && back->getSSRC() == ssrc && back->getPayloadId() == pt &&
                                back->getTrack() == t,
                            "M07", "fields", "marker %d sequence %u time stamp %u SSRC %u type %d", back->getMarker(), back->getSequence(), back->getTimestamp(),
                            back->getSSRC(), back->getPayloadId());
                    c.check(toBytes(back->getPayload()) == w.payload, "M07", "payload", "%zu bytes of %d, padding %d", back->getPayloadSize(), n, pad);
                    c.check(back->getExtension().empty() == (ext == 0) && toBytes(back->getExtension().getData()) == extData &&
                                (ext == 0 || back->getExtension().getId() == w.extId),
                            "M07", "extension", "%zu bytes of %zu", back->getExtension().getData().size(), extData.size());

                    // Resent
                    const auto rtx = packet.generateRtx(packet.getExtension());
                    const auto rb = toBytes(rtx.buf);
                    const auto rw = readWire(rb);
                    c.check(rw.ok && rw.pt == t->getRtxPayloadId() && rw.ssrc == t->getRtxSSRC() && rw.ts == ts && rw.marker == marker && rw.ext == w.ext &&
                                rw.padding == pad && rw.payload.size() == w.payload.size() + 2 && get16(rw.payload, 0) == seq &&
                                Bytes(rw.payload.begin() + 2, rw.payload.end()) == w.payload,
                            "M07", "rtx", "payload %d, padding %d", n, pad);
                    const auto rp = RtpPacket::fromUdpPacket(t, rtx.buf);
                    c.check(rp != nullptr, "M07", "rtx-not-parsed", "payload %d, padding %d", n, pad);
                    if (rp && n > 0) {
                        JitterBuffer jb(t, Depacketizer::make(t).first, 64, std::chrono::milliseconds(10), std::chrono::milliseconds(5));
                        jb.consume(rp);
                        env::advanceMs(11);
                        const auto frames = jb.processDeque();
                        c.check(frames.size() == 1 && toBytes(frames[0]->data) == w.payload && static_cast<uint16_t>(frames[0]->seq_ext) == seq &&
                                    static_cast<uint32_t>(frames[0]->rtp_timestamp_ext) == ts,
                                "M07", "rtx-unwrapped", "payload %d, padding %d: %zu frames", n, pad, frames.size());
                    }
                    c.state(mcu::hashBytes(bytes));
                }
            }
        }
    }
    // Successive packets of the RTX stream
    const auto t = track(5, 96);
    const RtpPacket packet(t, false, 7, 10, 20, 0, toBuf({ 1, 2, 3 }));
    uint16_t last = 0;
    uint32_t rollover = 0;
    for (int i = 0; i < 140000; i += 1) {
        const auto out = packet.generateRtx({});
        const auto rw = readWire(toBytes(out.buf));
        c.check(i == 0 || rw.seq == static_cast<uint16_t>(last + 1), "M07", "rtx-sequence", "%u after %u", rw.seq, last);
        if (i > 1) {
            // The roll-over count of the RTX stream, which encryption goes by, is of the stream itself
            c.check(out.rollover == rollover + (rw.seq == 0 ? 1 : 0), "M07", "rtx-rollover", "RTX packet %d, sequence %u: roll-over %u after %u", i, rw.seq,
                    out.rollover, rollover);
        } else {
            c.check(out.rollover <= 1, "M07", "rtx-rollover", "RTX packet %d, sequence %u: roll-over %u", i, rw.seq, out.rollover);
        }
        rollover = out.rollover;
        last = rw.seq;
    }
    c.outcome(0);
}

void checkParse(Ctx& c, const std::shared_ptr<Track>& t, const Bytes& b, uint16_t* outSeq = nullptr)
{
    const auto w = readWire(b);
    const mcu::Exact exact(b);
    const auto p = RtpPacket::fromUdpPacket(t, ByteBuffer{ exact.data(), exact.size() });
    c.step();
    if (w.zeroPadding && !p) {
        // A padding count of zero is not allowed, refusing it is as good as ignoring it
        return;
    }
    c.check((p != nullptr) == w.ok, "M07", w.ok ? "refused" : "accepted", "%s is %s", hex(b).c_str(), p ? "accepted" : "refused");
    if (!p || !w.ok) {
        return;
    }
    c.check(p->getMarker() == w.marker && p->getSequence() == w.seq && p->getTimestamp() == w.ts && p->getSSRC() == w.ssrc && p->getPayloadId() == w.pt, "M07", "fields",
            "%s", hex(b).c_str());
    c.check(toBytes(p->getPayload()) == w.payload, "M07", "payload", "%s: payload %s, expected %s", hex(b, 90).c_str(), hex(toBytes(p->getPayload())).c_str(),
            hex(w.payload).c_str());
    compareLookup(c, p->getExtension(), w.hasExt ? readElements(w.extId, w.ext) : Elements(), "received");
    if (outSeq) {
        *outSeq = p->getSequence();
    }
}

void runForeign(Ctx& c)
{
    env::reset(c.seed());
    const auto t = track(0x01020304, 96);
    const int sizes[] = { 0, 1, 2, 3, 200 };
    const int paddings[] = { 0, 1, 2, 4, 255 };
    Wire w;
    w.pt = 96;
    w.ssrc = 0x01020304;
    w.seq = 4000;
    w.ts = 90000;
    const int cc = c.choose(16, "contributing sources");
    for (int i = 0; i < cc; i += 1) {
        w.csrc.push_back(i % 2 ? 0xBEDE0001u : 0x10000001u + static_cast<uint32_t>(i));
    }
    const int ext = c.choose(5, "extension words");
    for (const int idKind : { 0, 1, 2, 3 }) {
        w.hasExt = ext > 0;
        w.extId = static_cast<uint16_t>(idKind == 0 ? 0xBEDE : idKind == 1 ? 0x1000 : idKind == 2 ? 0x100F : 0xABCD);
        const int words = ext == 0 ? 0 : ext - 1;
        w.ext.clear();
        for (int i = 0; i < words * 4; i += 1) {
            // Element 1 of one byte, and so on in the one-byte format; element 16 of one byte in the two-byte format
            const uint8_t one[] = { 0x10, 7, 0x20, 8 }, two[] = { 0x10, 1, 9, 0 };
            w.ext.push_back(idKind == 0 ? one[i % 4] : two[i % 4]);
        }
        for (const int n : sizes) {
            for (const int pad : paddings) {
                for (int m = 0; m < 2; m += 1) {
                    w.marker = m != 0;
                    w.padding = pad;
                    w.payload = pattern(c.seed(), 3, n);
                    const auto b = writeWire(w);
                    checkParse(c, t, b);
                    c.state(mcu::hashBytes(b));
                    // Every truncation of the smaller ones
                    if (b.size() < 100) {
                        for (size_t cut = 0; cut < b.size(); cut += 1) {
                            checkParse(c, t, Bytes(b.begin(), b.begin() + cut));
                        }
                    }
                    // Every count of extension words
                    if (w.hasExt && idKind == 0 && n == 200 && pad == 0 && m == 0 && (cc == 0 || cc == 15)) {
                        auto d = b;
                        for (int k = 0; k < 65536; k += 1) {
                            d[12 + cc * 4 + 2] = static_cast<uint8_t>(k >> 8);
                            d[12 + cc * 4 + 3] = static_cast<uint8_t>(k);
                            checkParse(c, t, d);
                        }
                    }
                }
            }
        }
        if (!w.hasExt) {
            break;
        }
    }
    c.outcome(0);
}

// Every short string after the fixed header
void runTails(Ctx& c)
{
    env::reset(c.seed());
    const auto t = track(0x01020304, 96);
    const uint8_t alphabet[] = { 0x00, 0x01, 0x02, 0x03, 0x10, 0xBE, 0xDE, 0xff };
    const int flags = c.choose(8, "padding, extension, contributing sources");
    const int maxLen = c.thorough() ? 8 : 6;
    const int first = c.choose(8, "first");
    const int second = c.choose(8, "second");
    const uint8_t b0 = static_cast<uint8_t>(0x80 | (flags & 1 ? 0x20 : 0) | (flags & 2 ? 0x10 : 0) | (flags & 4 ? 1 : 0));
    Bytes head = { b0, 96, 0x12, 0x34, 0, 0, 0, 9, 1, 2, 3, 4 };
    for (int len = 0; len <= maxLen; len += 1) {
        if ((len == 0 && first + second > 0) || (len == 1 && second > 0)) {
            continue;
        }
        std::vector<int> digit(len, 0);
        if (len > 0) {
            digit[0] = first;
        }
        if (len > 1) {
            digit[1] = second;
        }
        while (true) {
            auto b = head;
            for (const int d : digit) {
                b.push_back(alphabet[d]);
            }
            checkParse(c, t, b);
            int i = len - 1;
            while (i >= 2 && digit[i] == 7) {
                digit[i--] = 0;
            }
            if (i < 2) {
                break;
            }
            digit[i] += 1;
        }
    }
    c.state(mc::mix(mc::mix(flags, first), second));
    c.outcome(0);
}

// ----- M08

void runTimeSource(Ctx& c)
{
    env::reset(c.seed());
    const uint32_t rates[] = { 90000, 48000, 8000 };
    const auto rate = rates[c.choose(3, "clock rate")];
    const int64_t bases[] = { 0, 1, 999999999999ll, -5000000 };
    const auto base = bases[c.choose(4, "first time")];
    const int64_t intervals[] = { 0, 1, 10, 11, 333, 16666, 16667, 20000, 33333, 33366, 40000, 999999, 1000000, 600000000 };
    const int64_t late[] = { 0, 7, 33333, 1000000, 3600000000ll };
    const int frames = c.thorough() ? 5000 : 3000;
    const int a = c.choose(14, "interval 1");
    const int maxPeriod = c.thorough() ? 3 : 2;
    for (int b = 0; b < 14; b += 1) {
        for (int d = 0; d < (maxPeriod == 3 ? 14 : 1); d += 1) {
            RtpTimeSource source(rate);
            int64_t pts = base;
            const int64_t period[] = { intervals[a], intervals[b], intervals[d] };
            const auto first = source.getFrameTimestamp(pts);
            for (int i = 1; i < frames; i += 1) {
                pts += period[i % maxPeriod];
                const auto got = source.getFrameTimestamp(pts);
                c.step();
                // The exact difference lies between two integers, both are fine, and one more for rounding at the base
                const auto exact = static_cast<__int128>(pts - base) * rate;
                const auto low = static_cast<uint32_t>(exact / 1000000);
                const auto diff = static_cast<int32_t>(got - first - low);
                c.check(diff >= -1 && diff <= 2, "M08", "drift", "frame %d, %lld us after the first one: off by %d units at %u Hz", i,
                        static_cast<long long>(pts - base), diff, rate);
                if (i % 50 == 0) {
                    for (const auto l : late) {
                        env::advanceUs(l);
                        const auto now = source.getCurrentTimestamp();
                        const auto want = static_cast<uint32_t>(static_cast<__int128>(l) * rate / 1000000);
                        const auto nd = static_cast<int32_t>(now - got - want);
                        c.check(nd >= -1 && nd <= 1, "M08", "current", "%lld us after a frame: off by %d units", static_cast<long long>(l), nd);
                        env::advanceUs(-l);
                    }
                }
            }
        }
        c.state(mc::mix(mc::mix(a, b), rate));
    }
    c.outcome(0);
}

// Every short sequence of intervals, with every pair of frames compared
void runTimePairs(Ctx& c)
{
    env::reset(c.seed());
    const uint32_t rates[] = { 90000, 48000, 44100, 8000 };
    const auto rate = rates[c.choose(4, "clock rate")];
    const int64_t intervals[] = { 0, 1, 10, 11, 12, 333, 16667, 33333, 33334, 1000000, 47721858844ll };
    const int first = c.choose(11, "interval 1");
    const int depth = c.thorough() ? 5 : 4;
    std::vector<int> digit(depth, 0);
    digit[0] = first;
    while (true) {
        RtpTimeSource source(rate);
        std::vector<int64_t> pts = { 777 };
        std::vector<uint32_t> ts = { source.getFrameTimestamp(777) };
        for (const int d : digit) {
            pts.push_back(pts.back() + intervals[d]);
            ts.push_back(source.getFrameTimestamp(pts.back()));
        }
        c.step();
        for (size_t i = 0; i < pts.size(); i += 1) {
            for (size_t k = i + 1; k < pts.size(); k += 1) {
                const auto exact = static_cast<__int128>(pts[k] - pts[i]) * rate;
                const auto diff = static_cast<int32_t>(ts[k] - ts[i] - static_cast<uint32_t>(exact / 1000000));
                c.check(diff >= -1 && diff <= 2, "M08", "difference", "frames %lld us apart: off by %d units at %u Hz", static_cast<long long>(pts[k] - pts[i]), diff, rate);
            }
        }
        int i = depth - 1;
        while (i >= 1 && digit[i] == 10) {
            digit[i--] = 0;
        }
        if (i < 1) {
            break;
        }
        digit[i] += 1;
    }
    c.state(mc::mix(rate, first));
    c.outcome(0);
}

// ----- M13

struct Kind {
    int type; // 0 string, 1 binary, 2 u16, 3 u32, 4 u64
    int len;
};

const Kind kKinds[] = { { 0, 0 }, { 0, 1 }, { 0, 2 }, { 0, 16 }, { 0, 255 }, { 0, 300 }, { 1, 0 }, { 1, 1 }, { 1, 3 }, { 1, 254 }, { 1, 255 }, { 1, 256 }, { 1, 700 },
                        { 2, 2 }, { 3, 4 }, { 4, 8 } };
constexpr int kKindCount = 16;
const int kIds[] = { 1, 2, 14, 15, 16, 255 };

Bytes addElement(Ctx& c, RtpExtensionBuilder& b, const Kind& k, int id, int salt)
{
    const auto u8 = static_cast<uint8_t>(id);
    Bytes v = pattern(c.seed(), static_cast<uint64_t>(id * 31 + salt), k.len);
    switch (k.type) {
    case 0:
        b.addStringValue(u8, std::string(v.begin(), v.end()));
        break;
    case 1:
        b.addBinaryValue(u8, toBuf(v));
        break;
    case 2:
        b.addU16Value(u8, static_cast<uint16_t>(number(v, 2)));
        break;
    case 3:
        b.addU32Value(u8, static_cast<uint32_t>(number(v, 4)));
        break;
    default:
        b.addU64Value(u8, number(v, 8));
        break;
    }
    // The length is one byte on the wire
    if (v.size() > 255) {
        v.resize(255);
    }
    return v;
}

Elements asElements(const std::vector<std::pair<int, Bytes>>& l)
{
    Elements e;
    e.list = l;
    return e;
}

RtpExtension overTheWire(Ctx& c, const std::shared_ptr<Track>& t, RtpExtension&& ext)
{
    const auto size = ext.size();
    const auto empty = ext.empty();
    const RtpPacket p(t, true, 0, 1, 2, 0, std::move(ext), toBuf({ 1, 2, 3 }));
    const auto b = toBytes(p.generate().buf);
    c.check(b.size() == 12 + size + 3, "M13", "size", "the extension says it takes %zu bytes and takes %zu", size, b.size() - 15);
    const auto w = readWire(b);
    c.check(w.ok && w.hasExt == !empty && w.payload == Bytes({ 1, 2, 3 }), "M13", "wire", "%s", hex(b).c_str());
    const auto back = RtpPacket::fromUdpPacket(t, toBuf(b));
    c.check(back != nullptr, "M13", "wire", "%s is not parsed", hex(b).c_str());
    return back ? back->moveExtension() : RtpExtension();
}

void runBuilder(Ctx& c)
{
    env::reset(c.seed());
    const auto t = track(0x01020304, 96);
    const int k0 = c.choose(kKindCount, "first element");
    const int i0 = c.choose(6, "first id");
    const int maxCount = c.thorough() ? 4 : 3;
    // All further elements, each with the ids in rotation
    std::vector<int> digit(maxCount, 0);
    for (int count = 1; count <= maxCount; count += 1) {
        std::fill(digit.begin(), digit.end(), 0);
        digit[0] = k0;
        while (true) {
            RtpExtensionBuilder b;
            std::vector<std::pair<int, Bytes>> written;
            for (int i = 0; i < count; i += 1) {
                const int id = kIds[(i0 + i) % 6];
                c.check(!b.contains(static_cast<uint8_t>(id)), "M13", "contains", "id %d is there before it is written", id);
                written.push_back({ id, addElement(c, b, kKinds[digit[i]], id, i) });
                for (const auto& w : written) {
                    c.check(b.contains(static_cast<uint8_t>(w.first)), "M13", "contains", "id %d of %zu bytes was written and is not there", w.first, w.second.size());
                }
            }
            for (int id : { 3, 100, 254 }) {
                c.check(!b.contains(static_cast<uint8_t>(id)), "M13", "contains", "id %d is there but was not written", id);
            }
            auto ext = b.build();
            c.step();
            compareLookup(c, ext, asElements(written), "built");
            auto copy = RtpExtensionBuilder::from(ext);
            const auto dup = ext.copy();
            auto wire = overTheWire(c, t, std::move(ext));
            compareLookup(c, wire, asElements(written), "received");
            compareLookup(c, dup, asElements(written), "copied");

            // Replacing each 16-bit value, and adding one
            for (int i = 0; i <= count; i += 1) {
                auto r = RtpExtensionBuilder::from(dup);
                auto want = written;
                if (i < count) {
                    if (written[i].second.size() != 2) {
                        continue;
                    }
                    want[i].second = { 0xAB, 0xCD };
                } else {
                    want.push_back({ 77, { 0xAB, 0xCD } });
                }
                r.addOrReplaceU16Value(static_cast<uint8_t>(i < count ? written[i].first : 77), 0xABCD);
                const auto e = r.build();
                compareLookup(c, e, asElements(want), "replaced");
                c.check(e.getData().size() == dup.getData().size() + (i < count ? 0 : 4), "M13", "replaced-size", "%zu bytes from %zu", e.getData().size(),
                        dup.getData().size());
                c.step();
            }
            c.state(mcu::hashBytes(toBytes(dup.getData())));

            int i = count - 1;
            while (i >= 1 && digit[i] == kKindCount - 1) {
                digit[i--] = 0;
            }
            if (i < 1) {
                break;
            }
            digit[i] += 1;
        }
    }
    c.outcome(0);
}

// Extensions as others write them: both formats, with padding at any place
void runPeerFormats(Ctx& c)
{
    env::reset(c.seed());
    const auto t = track(0x01020304, 96);
    const bool two = c.flip("two-byte format");
    const uint16_t ids1[] = { 0xBEDE };
    const uint16_t ids2[] = { 0x1000, 0x1001, 0x100F };
    const int lens1[] = { 1, 2, 3, 4, 8, 16 };
    const int lens2[] = { 0, 1, 2, 4, 17, 255 };
    const int elemIds[] = { 1, 7, 14, two ? 200 : 2 };
    const int pads[] = { 0, 1, 2, 3, 5 };
    const int count = 1 + c.choose(3, "elements");
    const int pad0 = c.choose(5, "padding before");
    const int len0 = c.choose(6, "length");
    const auto extId = two ? ids2[c.choose(3, "application bits")] : ids1[0];
    std::vector<int> lens(count, 0), gaps(count, 0);
    lens[0] = len0;
    while (true) {
        std::fill(gaps.begin(), gaps.end(), 0);
        while (true) {
            Bytes b(pads[pad0], 0);
            std::vector<std::pair<int, Bytes>> written;
            for (int i = 0; i < count; i += 1) {
                const int n = two ? lens2[lens[i]] : lens1[lens[i]];
                const int id = elemIds[i];
                const auto v = pattern(c.seed(), static_cast<uint64_t>(id), n);
                if (two) {
                    b.push_back(static_cast<uint8_t>(id));
                    b.push_back(static_cast<uint8_t>(n));
                } else {
                    b.push_back(static_cast<uint8_t>(id << 4 | (n - 1)));
                }
                b.insert(b.end(), v.begin(), v.end());
                b.resize(b.size() + pads[gaps[i]], 0);
                written.push_back({ id, v });
            }
            Wire w;
            w.pt = 96;
            w.ssrc = 0x01020304;
            w.hasExt = true;
            w.extId = extId;
            w.ext = b;
            while (w.ext.size() % 4) {
                w.ext.push_back(0);
            }
            w.payload = { 1, 2, 3 };
            const auto bytes = writeWire(w);
            const auto p = RtpPacket::fromUdpPacket(t, toBuf(bytes));
            c.step();
            c.check(p != nullptr, "M13", "wire", "%s is not parsed", hex(bytes).c_str());
            if (p) {
                compareLookup(c, p->getExtension(), asElements(written), "from a peer");
                const auto d = p->getExtension().copy();
                compareLookup(c, d, asElements(written), "copied");
            }
            c.state(mcu::hashBytes(bytes));
            int i = count - 1;
            while (i >= 0 && gaps[i] == 4) {
                gaps[i--] = 0;
            }
            if (i < 0) {
                break;
            }
            gaps[i] += 1;
        }
        int i = count - 1;
        while (i >= 1 && lens[i] == 5) {
            lens[i--] = 0;
        }
        if (i < 1) {
            break;
        }
        lens[i] += 1;
    }
    c.outcome(0);
}

void runExtStrings(Ctx& c)
{
    const uint16_t extIds[] = { 0xBEDE, 0x1000, 0x100A, 0x0000, 0xABCD };
    const auto extId = extIds[c.choose(5, "format")];
    const uint8_t alphabet[] = { 0x00, 0x01, 0x02, 0x03, 0x10, 0x11, 0x1f, 0xF0, 0xff };
    const int first = c.choose(9, "first");
    const int second = c.choose(9, "second");
    const int maxLen = c.thorough() ? 7 : 5;
    for (int len = 0; len <= maxLen; len += 1) {
        if ((len == 0 && first + second > 0) || (len == 1 && second > 0)) {
            continue;
        }
        std::vector<int> digit(len, 0);
        if (len > 0) {
            digit[0] = first;
        }
        if (len > 1) {
            digit[1] = second;
        }
        while (true) {
            Bytes b;
            for (const int d : digit) {
                b.push_back(alphabet[d]);
            }
            const auto ref = readElements(extId, b);
            const mcu::Exact exact(b);
            RtpExtension ext(extId, ByteBuffer{ exact.data(), exact.size() });
            c.step();
            compareLookup(c, ext, ref, "given");
            ext.trimPadding();
            compareLookup(c, ext, ref, "trimmed");
            c.check(ext.getData().size() <= b.size(), "M13", "trim", "%zu bytes of %zu", ext.getData().size(), b.size());
            int i = len - 1;
            while (i >= 2 && digit[i] == 8) {
                digit[i--] = 0;
            }
            if (i < 2) {
                break;
            }
            digit[i] += 1;
        }
    }
    c.state(mc::mix(mc::mix(extId, first), second));
    c.outcome(0);
}

uint32_t readLeb(const Bytes& b, size_t& p)
{
    uint64_t v = 0;
    int shift = 0;
    while (p < b.size()) {
        const auto x = b[p++];
        v |= static_cast<uint64_t>(x & 0x7f) << shift;
        shift += 7;
        if (!(x & 0x80)) {
            break;
        }
    }
    return static_cast<uint32_t>(v);
}

// The extensions the library itself writes: simulcast identification and layers, absolute capture time
void runSources(Ctx& c)
{
    env::reset(c.seed());
    const struct {
        uint16_t w, h, fps;
        uint32_t kbps;
    } dims[] = { { 320, 180, 15, 100 }, { 1, 1, 1, 0 }, { 1920, 1080, 60, 127 }, { 7680, 4320, 255, 128 }, { 256, 257, 30, 16383 }, { 640, 360, 24, 16384 }, { 65535, 32768, 120, 2097152 } };
    const int n = 1 + c.choose(4, "layers");
    const int which = c.choose(n, "layer");
    std::vector<SimulcastLayer> layers;
    for (int i = 0; i < n; i += 1) {
        const auto& d = dims[c.choose(i < 2 ? 7 : 3, "dimensions")];
        layers.push_back({ std::string(1 + i * 3, static_cast<char>('a' + i)), d.w, d.h, d.fps, d.kbps });
    }
    const int midLen[] = { 1, 2, 16 };
    const std::string mid(midLen[c.choose(3, "media id")], 'm');

    const int idSets[][5] = { { 1, 2, 3, 4, 5 }, { 14, 15, 16, 255, 1 }, { 5, 4, 3, 2, 1 } };
    const auto& ids = idSets[c.choose(3, "ids")];
    ExtensionMap map;
    map.add(static_cast<uint8_t>(ids[0]), RtpStandardExtensions::kExtSdesMid);
    map.add(static_cast<uint8_t>(ids[1]), RtpStandardExtensions::kExtSdesRtpStreamId);
    map.add(static_cast<uint8_t>(ids[2]), RtpStandardExtensions::kExtGoogleVLA);
    map.add(static_cast<uint8_t>(ids[3]), RtpStandardExtensions::kExtSdesRtpRepairedStreamId);
    map.add(static_cast<uint8_t>(ids[4]), RtpStandardExtensions::kExtAbsCaptureTime);

    mcu::TrackSpec spec;
    spec.ssrc = 0x01020304;
    spec.rtxSsrc = 77;
    spec.rtxPt = 97;
    spec.media = std::make_shared<Media>(mid, MediaType::Video, map);
    const auto layer = std::make_shared<Track::SimulcastLayer>();
    static_cast<SimulcastLayer&>(*layer) = layers[which];
    layer->index = static_cast<uint8_t>(which);
    spec.layer = layer;
    const auto t = mcu::makeTrack(spec);
    const auto packetizer = Packetizer::make(t).first;

    RtpExtensionSourceSimulcast simulcast;
    RtpExtensionSourceAbsCaptureTime capture;
    const uint64_t times[] = { 0, 1, 0x8000000000000000ull, 0xffffffffffffffffull };
    const auto time = times[c.choose(4, "capture time")];
    const uint8_t key[] = { 0x10, 0x00, 0x00, 0x9d, 0x01, 0x2a };
    c.check(simulcast.shouldAdd(t, packetizer, { key, sizeof(key) }), "M13", "simulcast", "not wanted for a key frame");
    simulcast.prepare(t, layers);
    capture.prepare(t, time);
    std::vector<std::pair<int, Bytes>> want;
    RtpExtensionBuilder b;
    for (unsigned int number = 0; number < 2; number += 1) {
        c.check(simulcast.wantsExtension(t, true, number), "M13", "simulcast", "not wanted in packet %u", number);
        c.check(capture.wantsExtension(t, true, number) == (number == 0 && time != 0), "M13", "capture", "in packet %u", number);
    }
    simulcast.addExtension(b, t, true, 0);
    if (capture.wantsExtension(t, true, 0)) {
        capture.addExtension(b, t, true, 0);
        Bytes v;
        put32(v, static_cast<uint32_t>(time >> 32));
        put32(v, static_cast<uint32_t>(time));
        want.push_back({ ids[4], v });
    }
    want.push_back({ ids[0], Bytes(mid.begin(), mid.end()) });
    want.push_back({ ids[1], Bytes(layers[which].name.begin(), layers[which].name.end()) });
    auto ext = b.build();
    const auto vla = ext.findAny(static_cast<uint8_t>(ids[2]));
    c.check(vla.has_value(), "M13", "vla", "the layers are not there");
    const Bytes v(vla->ptr, vla->ptr + vla->size);
    want.push_back({ ids[2], v });
    const auto copy = ext.copy();
    const auto wire = overTheWire(c, t, std::move(ext));
    c.step();
    compareLookup(c, wire, asElements(want), "received");

    // The layers, as in the definition of video-layers-allocation00
    c.check(v.size() > 2 && v[0] == ((which << 6) | ((n - 1) << 4) | 1), "M13", "vla", "header %s", hex(v).c_str());
    size_t p = 1;
    // Two bits for each stream: the number of temporal layers less one
    c.check(v[p] == 0, "M13", "vla", "temporal layers %02x", v[p]);
    p += 1;
    for (int i = 0; i < n; i += 1) {
        const auto kbps = readLeb(v, p);
        c.check(kbps == layers[i].kilobits_per_second, "M13", "vla", "layer %d: %u kbit/s", i, kbps);
    }
    for (int i = 0; i < n; i += 1) {
        c.check(p + 5 <= v.size(), "M13", "vla", "layer %d is not there: %s", i, hex(v).c_str());
        if (p + 5 > v.size()) {
            break;
        }
        const auto& l = layers[i];
        c.check(get16(v, p) == static_cast<uint16_t>(l.width - 1) && get16(v, p + 2) == static_cast<uint16_t>(l.height - 1) && v[p + 4] == std::min<int>(l.frames_per_second, 255), "M13",
                "vla", "layer %d: %s", i, hex(v).c_str());
        p += 5;
    }
    c.check(p == v.size(), "M13", "vla", "%zu bytes of %zu: %s", p, v.size(), hex(v).c_str());

    // A retransmission names the stream it repairs, and keeps the rest
    auto rb = RtpExtensionBuilder::from(copy);
    simulcast.updateForRtx(rb, t);
    simulcast.updateForRtx(rb, t);
    auto rtxWant = want;
    rtxWant.push_back({ ids[3], Bytes(layers[which].name.begin(), layers[which].name.end()) });
    const auto rtx = overTheWire(c, t, rb.build());
    compareLookup(c, rtx, asElements(rtxWant), "resent");
    RtpExtensionBuilder eb;
    simulcast.updateForRtx(eb, t);
    const auto fresh = overTheWire(c, t, eb.build());
    compareLookup(c, fresh, asElements({ { ids[0], Bytes(mid.begin(), mid.end()) }, { ids[3], Bytes(layers[which].name.begin(), layers[which].name.end()) } }), "resent without any");
    simulcast.clear();
    c.check(!simulcast.wantsExtension(t, true, 0), "M13", "simulcast", "wanted after clear");
    // A key frame names its layer however much was sent before it
    t->getStats()->incrementSentPackets(1000);
    c.check(simulcast.shouldAdd(t, packetizer, { key, sizeof(key) }), "M13", "simulcast", "not wanted for a late key frame");
    c.state(mcu::hashBytes(v));
    c.outcome(0);
}

// The mapping of names to ids, which remembers its last answer
void runMap(Ctx& c)
{
    const std::string names[] = { "a", "b", "urn:c", "" };
    ExtensionMap map;
    std::vector<std::pair<int, std::string>> ref;
    const int depth = c.thorough() ? 7 : 6;
    int adds = 0;
    for (int i = 0; i < depth; i += 1) {
        const int op = c.choose(8, "operation");
        if (op == 0) {
            const int id = 1 + adds;
            const auto name = names[adds % 3];
            adds += 1;
            if (adds > 3) {
                c.abandon();
            }
            map.add(static_cast<uint8_t>(id), name);
            ref.push_back({ id, name });
        } else if (op == 1) {
            map.clear();
            ref.clear();
            adds = 0;
        } else if (op < 5) {
            const auto& name = names[op - 2];
            int want = 0;
            for (const auto& e : ref) {
                if (e.second == name) {
                    want = e.first;
                    break;
                }
            }
            const auto got = map.findByName(name);
            c.check(got == want, "M13", "map-name", "%s is %d, should be %d", name.c_str(), got, want);
        } else {
            const int id = op - 4;
            std::string want;
            for (const auto& e : ref) {
                if (e.first == id) {
                    want = e.second;
                }
            }
            const auto got = map.findById(static_cast<uint8_t>(id));
            c.check(got == want, "M13", "map-id", "%d is '%s', should be '%s'", id, got.c_str(), want.c_str());
        }
        c.step();
    }
    c.state(ref.size());
    c.outcome(ref.size());
}

// ----- M15

template <typename T>
void runExtended(Ctx& c)
{
    constexpr int64_t range = static_cast<int64_t>(std::numeric_limits<T>::max()) + 1;
    const int64_t q = range / 4;
    const int64_t starts[] = { 0, 1, 100, q - 1, q, q * 2 - 1, q * 2, q * 3 - 1, q * 3, q * 3 + 1, range - 100, range - 1 };
    // Forward and back, up to just under a quarter of the range
    const int64_t jumps[] = { 0, 1, 2, 100, q / 2, q - 1, -1, -2, -100, -q / 2, -(q - 1) };
    constexpr int nj = 11;
    const int64_t gaps[] = { 0, 1'500'000, 500'000, 10'000'000 };
    const int ng = c.thorough() ? 4 : 2;
    const auto start = starts[c.choose(12, "start")];
    const int first = c.choose(nj, "first jump");
    const int depth = 5;
    std::vector<int> digit(depth, 0);
    digit[0] = first;
    // The first gap as well
    for (int g0 = 0; g0 < ng; g0 += 1) {
        std::fill(digit.begin() + 1, digit.end(), 0);
        while (true) {
            env::reset(1);
            env::setUs(5'000'000);
            ExtendedValue<T> e;
            // Exact: the first value is a whole number of ranges plus the value
            const auto base = e.extend(static_cast<T>(start));
            c.check(base % range == static_cast<uint64_t>(start), "M15", "first", "%llu from %lld", static_cast<unsigned long long>(base), static_cast<long long>(start));
            uint64_t truth = base;
            for (int i = 0; i < depth; i += 1) {
                const int64_t j = i == 0 ? jumps[first] : jumps[digit[i] / ng];
                const int64_t g = i == 0 ? gaps[g0] : gaps[digit[i] % ng];
                env::advanceUs(g);
                truth += static_cast<uint64_t>(j);
                const auto got = e.extend(static_cast<T>(truth));
                c.step();
                c.check(got == truth, "M15", "difference", "start %lld, step %d, jump %lld after %lld us: off by %lld", static_cast<long long>(start), i,
                        static_cast<long long>(j), static_cast<long long>(g), static_cast<long long>(got - truth));
                c.check(e.get().has_value() && *e.get() % range == static_cast<uint64_t>(static_cast<T>(truth)), "M15", "get", "differs from the last value");
            }
            int i = depth - 1;
            while (i >= 1 && digit[i] == nj * ng - 1) {
                digit[i--] = 0;
            }
            if (i < 1) {
                break;
            }
            digit[i] += 1;
        }
    }
    c.state(mc::mix(start, first));
    c.outcome(0);
}

// Many wraps: each cycle of jumps repeated
template <typename T>
void runExtendedLong(Ctx& c)
{
    constexpr int64_t range = static_cast<int64_t>(std::numeric_limits<T>::max()) + 1;
    const int64_t q = range / 4;
    const int64_t jumps[] = { 1, q / 3, q - 1, -1, -q / 3, -(q - 1), 0 };
    const int64_t gaps[] = { 0, 20'000, 1'500'000 };
    int64_t cycle[4];
    for (auto& j : cycle) {
        j = jumps[c.choose(7, "jump")];
    }
    const auto gap = gaps[c.choose(3, "gap")];
    env::reset(1);
    env::setUs(5'000'000);
    ExtendedValue<T> e;
    uint64_t truth = e.extend(static_cast<T>(q * 3 + 5));
    for (int i = 0; i < 200; i += 1) {
        env::advanceUs(gap);
        truth += static_cast<uint64_t>(cycle[i % 4]);
        const auto got = e.extend(static_cast<T>(truth));
        c.step();
        c.check(got == truth, "M15", "difference", "step %d, jump %lld: off by %lld", i, static_cast<long long>(cycle[i % 4]), static_cast<long long>(got - truth));
    }
    c.state(truth);
    c.outcome(0);
}

// ----- U01

template <size_t N>
struct Item {
    static std::set<void*>* live;
    static int constructed, destroyed;
    uint8_t data[N];
    Item()
    {
        constructed += 1;
        memset(data, 0xA5, N);
    }
    ~Item()
    {
        destroyed += 1;
    }
};
template <size_t N>
int Item<N>::constructed = 0;
template <size_t N>
int Item<N>::destroyed = 0;

template <size_t N>
void runPool(Ctx& c)
{
    using I = Item<N>;
    I::constructed = I::destroyed = 0;
    const int prefills[] = { 0, 1, 63, 64, 65, 127, 128 };
    const int prefill = prefills[c.choose(7, "objects before")];
    const int depth = c.thorough() ? 9 : 7;
    std::vector<int> ops;
    for (int i = 0, n = prefill; i < depth; i += 1) {
        // Create, or return the first, the middle, the last or the one before
        ops.push_back(c.choose(n == 0 ? 2 : 5, "operation"));
        n += ops.back() == 0 ? 1 : n > 0 ? -1 : 0;
    }
    const auto heap = __sanitizer_get_current_allocated_bytes();
    size_t created = 0;
    {
        auto pool = std::make_unique<PoolAllocator<I>>();
        struct Live {
            I* p;
            uint8_t tag;
        };
        std::vector<Live> live;
        uint8_t tag = 1;
        const auto verify = [&](const char* when) {
            for (size_t i = 0; i < live.size(); i += 1) {
                for (size_t k = 0; k < N; k += 1) {
                    c.check(live[i].p->data[k] == live[i].tag, "U01", "content", "%s: object %zu of %zu changed", when, i, live.size());
                }
            }
        };
        const auto create = [&] {
            const auto p = pool->create();
            created += 1;
            c.check(p != nullptr, "U01", "null", "no object");
            c.check(reinterpret_cast<uintptr_t>(p) % alignof(I) == 0, "U01", "alignment", "%p", static_cast<void*>(p));
            for (const auto& l : live) {
                const auto a = reinterpret_cast<uintptr_t>(p), b = reinterpret_cast<uintptr_t>(l.p);
                c.check(a + N <= b || b + N <= a, "U01", "overlap", "two live objects %zd bytes apart", static_cast<ssize_t>(a - b));
            }
            for (size_t k = 0; k < N; k += 1) {
                c.check(p->data[k] == 0xA5, "U01", "construction", "byte %zu is %02x", k, p->data[k]);
            }
            memset(p->data, tag, N);
            live.push_back({ p, tag });
            tag = static_cast<uint8_t>(tag % 200 + 1);
        };
        for (int i = 0; i < prefill; i += 1) {
            create();
        }
        verify("prefilled");
        for (int i = 0; i < depth; i += 1) {
            const int op = ops[i];
            if (op == 0) {
                create();
            } else if (live.empty()) {
                pool->destroy(nullptr);
            } else {
                const size_t n = live.size();
                const size_t at = op == 1 ? 0 : op == 2 ? n - 1 : op == 3 ? n / 2 : (n >= 2 ? n - 2 : 0);
                const auto before = I::destroyed;
                pool->destroy(live[at].p);
                live.erase(live.begin() + static_cast<ssize_t>(at));
                c.check(I::destroyed == before + 1, "U01", "destruction", "%d objects destroyed for one returned", I::destroyed - before);
            }
            c.step();
            verify("after an operation");
        }
        c.check(I::constructed == static_cast<int>(created), "U01", "construction", "%d constructed, %zu created", I::constructed, created);
        for (const auto& l : live) {
            pool->destroy(l.p);
        }
        live.clear();
        live.shrink_to_fit();
        c.check(I::destroyed == I::constructed, "U01", "destruction", "%d constructed, %d destroyed", I::constructed, I::destroyed);
        pool.reset();
        c.check(I::destroyed == I::constructed, "U01", "destruction", "%d constructed, %d destroyed with the pool", I::constructed, I::destroyed);
    }
    const auto after = __sanitizer_get_current_allocated_bytes();
    c.check(after <= heap, "U01", "leak", "%zd bytes are not given back", static_cast<ssize_t>(after - heap));
    c.state(mc::mix(created, prefill));
    c.outcome(created);
}

// ----- U02

void runWriter(Ctx& c)
{
    const int initial = c.choose(4, "initial capacity");
    ByteBuffer buf = initial == 0 ? ByteBuffer() : ByteBuffer(initial == 1 ? 1 : initial == 2 ? 16 : 300);
    Bytes ref;
    const int depth = c.thorough() ? 4 : 3;
    const uint64_t values[] = { 0, 0x7f, 0x80, 0x3fff, 0x4000, 0x123456789abcdef0ull, 0xffffffffffffffffull };
    struct Op {
        int op;
        uint64_t v;
    };
    std::vector<Op> done;
    ByteWriter w(buf);
    for (int i = 0; i < depth; i += 1) {
        const int op = c.choose(14, "operation");
        uint64_t v = 0;
        if (op <= 6) {
            v = values[c.choose(7, "value")];
        }
        const auto be = [&](int n) {
            for (int k = n - 1; k >= 0; k -= 1) {
                ref.push_back(static_cast<uint8_t>(v >> (8 * k)));
            }
        };
        switch (op) {
        case 0:
            w.writeU8(static_cast<uint8_t>(v));
            be(1);
            break;
        case 1:
            w.writeU16(static_cast<uint16_t>(v));
            be(2);
            break;
        case 2:
            w.writeU24(static_cast<uint32_t>(v));
            be(3);
            break;
        case 3:
            w.writeU32(static_cast<uint32_t>(v));
            be(4);
            break;
        case 4:
            w.writeU48(v);
            be(6);
            break;
        case 5:
            w.writeU64(v);
            be(8);
            break;
        case 6: {
            auto x = static_cast<uint32_t>(v);
            v = x;
            w.writeLEB128(x);
            do {
                const auto b = static_cast<uint8_t>(x & 0x7f);
                x >>= 7;
                ref.push_back(static_cast<uint8_t>(b | (x ? 0x80 : 0)));
            } while (x);
            break;
        }
        case 7: {
            const auto b = pattern(c.seed(), i, 130);
            w.write(b.data(), b.size());
            ref.insert(ref.end(), b.begin(), b.end());
            break;
        }
        case 8:
            w.write(toBuf({}));
            w.write(nullptr, 0);
            break;
        case 9:
            w.padding(static_cast<uint8_t>(i + 1), 129);
            ref.resize(ref.size() + 129, static_cast<uint8_t>(i + 1));
            break;
        case 10: {
            // A copy, moved back in
            auto copy = buf.copy();
            c.check(toBytes(copy) == ref && copy == buf, "U02", "copy", "differs");
            ByteBuffer other(std::move(copy));
            c.check(copy.size() == 0 && copy.data() == nullptr, "U02", "moved-from", "is not empty");
            buf = std::move(other);
            break;
        }
        case 11: {
            const auto smaller = ref.size() / 2;
            buf.resize(smaller);
            ref.resize(smaller);
            break;
        }
        case 12:
            buf.reserve(ref.size() + 1 + i * 200);
            c.check(buf.capacity() >= ref.size() + 1 + i * 200, "U02", "reserve", "capacity %zu", buf.capacity());
            break;
        default: {
            const auto b = pattern(c.seed(), 50 + i, static_cast<size_t>(i * 3));
            buf.assign(b.data(), b.size());
            ref = b;
            break;
        }
        }
        c.step();
        c.check(buf.size() == ref.size() && toBytes(buf) == ref && buf.capacity() >= buf.size() && buf.empty() == ref.empty(), "U02", "content", "after operation %d: %s, expected %s", op,
                hex(toBytes(buf)).c_str(), hex(ref).c_str());
        c.check(ref.empty() || buf.front() == ref[0], "U02", "front", "%02x", ref.empty() ? 0 : buf.front());
        if (op <= 6) {
            done.push_back({ op, v });
        } else {
            done.clear();
        }
    }
    c.state(mcu::hashBytes(ref));
    c.outcome(ref.size());
}

// Reading back, in every division of the buffer into reads
void runReader(Ctx& c)
{
    const int n = c.choose(c.thorough() ? 17 : 14, "size");
    const auto b = pattern(c.seed(), 9, static_cast<size_t>(n));
    const mcu::Exact exact(b);
    ByteReader r(exact.data(), exact.size());
    size_t pos = 0;
    while (true) {
        c.check(r.position() == pos && r.remaining() == n - pos && r.size() == static_cast<size_t>(n) && r.current() == exact.data() + pos, "U02", "position", "%zu of %d", pos, n);
        struct {
            int op, size;
        } all[] = { { 0, 1 }, { 1, 2 }, { 2, 4 }, { 3, 8 }, { 4, 3 }, { 5, 5 }, { 6, 2 }, { 7, 1 } };
        std::vector<int> possible;
        for (int i = 0; i < 8; i += 1) {
            if (pos + all[i].size <= static_cast<size_t>(n)) {
                possible.push_back(i);
            }
        }
        if (possible.empty()) {
            break;
        }
        const auto& o = all[possible[c.choose(static_cast<int>(possible.size()), "read")]];
        const Bytes want(b.begin() + pos, b.begin() + pos + o.size);
        Bytes got;
        uint64_t v = number(want, o.size);
        bool ok = true;
        switch (o.op) {
        case 0:
            ok = r.readU8() == v;
            break;
        case 1:
            ok = r.readU16() == v;
            break;
        case 2:
            ok = r.readU32() == v;
            break;
        case 3:
            ok = r.readU64() == v;
            break;
        case 4:
            ok = toBytes(r.readByteBuffer(3)) == want;
            break;
        case 5: {
            const auto s = r.readString(5);
            ok = Bytes(s.begin(), s.end()) == want;
            break;
        }
        case 6: {
            uint8_t tmp[2];
            r.read(tmp, 2);
            ok = Bytes(tmp, tmp + 2) == want;
            break;
        }
        default:
            r.skip(1);
            break;
        }
        c.check(ok, "U02", "read", "operation %d at %zu of %d", o.op, pos, n);
        pos += o.size;
        c.step();
    }
    c.check(r.remaining() == n - pos, "U02", "position", "%zu left of %d", r.remaining(), n);
    // Nothing is left to read beyond the end
    const auto e = r.readByteBuffer(0);
    c.check(e.empty(), "U02", "read", "an empty read is not empty");
    c.state(mc::mix(n, pos));
    c.outcome(pos);
}

// Growth over sizes around the powers of two
void runGrow(Ctx& c)
{
    const int sizes[] = { 0, 1, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 200000, 1 << 20 };
    ByteBuffer buf;
    ByteWriter w(buf);
    Bytes ref;
    const int depth = c.thorough() ? 4 : 3;
    for (int i = 0; i < depth; i += 1) {
        const auto b = pattern(c.seed(), i + 5, sizes[c.choose(16, "size")]);
        switch (c.choose(3, "by")) {
        case 0:
            w.write(b.data(), b.size());
            break;
        case 1:
            buf.append(b.data(), b.size());
            break;
        default:
            w.write(toBuf(b));
            break;
        }
        ref.insert(ref.end(), b.begin(), b.end());
        c.step();
        c.check(buf.size() == ref.size() && (ref.empty() || std::memcmp(buf.data(), ref.data(), ref.size()) == 0), "U02", "grown", "%zu bytes of %zu, or others", buf.size(),
                ref.size());
    }
    c.state(ref.size());
    c.outcome(ref.size());
}

void runLeb(Ctx& c)
{
    // All values whose bits are a run of ones, shifted, and their neighbours
    const int hi = c.choose(33, "high");
    for (int lo = 0; lo <= hi; lo += 1) {
        const auto mask = [](int n) { return n >= 32 ? 0xffffffffu : (1u << n) - 1; };
        const uint32_t v0 = mask(hi) & ~mask(lo);
        for (int d = -2; d <= 2; d += 1) {
            const auto v = v0 + static_cast<uint32_t>(d);
            ByteBuffer buf;
            ByteWriter w(buf);
            w.writeLEB128(v);
            w.writeU8(0xee);
            const auto b = toBytes(buf);
            size_t p = 0;
            c.check(readLeb(b, p) == v && p + 1 == b.size(), "U02", "leb-written", "%u as %s", v, hex(b).c_str());
            const mcu::Exact exact(b);
            ByteReader r(exact.data(), exact.size());
            const auto got = r.readLEB128();
            c.check(got == v && r.position() == p, "U02", "leb-read", "%u as %u", v, got);
            c.step();
        }
    }
    // Any string is read without going beyond its end
    const uint8_t alphabet[] = { 0x00, 0x01, 0x7f, 0x80, 0xff };
    for (int len = 0; len <= 7; len += 1) {
        int total = 1;
        for (int i = 0; i < len; i += 1) {
            total *= 5;
        }
        for (int x = hi; x < total; x += 33) {
            Bytes b;
            for (int i = 0, y = x; i < len; i += 1, y /= 5) {
                b.push_back(alphabet[y % 5]);
            }
            const mcu::Exact exact(b);
            ByteReader r(exact.data(), exact.size());
            const auto got = r.readLEB128();
            size_t p = 0;
            const auto want = readLeb(b, p);
            c.check(r.position() <= b.size(), "U02", "leb-position", "%zu of %zu", r.position(), b.size());
            // Up to five bytes with no bits beyond the 32nd, the value is defined
            if (p <= 5 && p > 0 && (b[p - 1] & 0x80) == 0 && (p < 5 || b[4] < 16)) {
                c.check(got == want && r.position() == p, "U02", "leb-read", "%s as %u", hex(b).c_str(), got);
            }
            c.step();
        }
    }
    c.state(hi);
    c.outcome(0);
}

void runBits(Ctx& c)
{
    const uint8_t alphabet[] = { 0x00, 0x01, 0x80, 0x5a, 0xff, 0x13 };
    const int n = c.choose(6, "size");
    Bytes b;
    for (int i = 0; i < n; i += 1) {
        b.push_back(alphabet[c.choose(i < 3 ? 6 : 3, "byte")]);
    }
    const mcu::Exact exact(b);
    const auto bit = [&](size_t i) { return i / 8 < b.size() ? (b[i / 8] >> (7 - i % 8)) & 1u : 0u; };
    const int steps[] = { 1, 2, 3, 5, 8, 9, 16, 31, 32 };
    // Every pair of read sizes, alternating
    for (const int s1 : steps) {
        for (const int s2 : steps) {
            BitReader r(exact.data(), exact.size());
            size_t pos = 0;
            for (int i = 0; i < 60 && pos < b.size() * 8 + 8; i += 1) {
                const int s = i % 2 ? s2 : s1;
                uint32_t want = 0;
                for (int k = 0; k < s; k += 1) {
                    want = want << 1 | bit(pos + k);
                }
                const auto got = s == 1 && i % 4 == 0 ? r.readBit() : r.readBits(s);
                c.check(got == want, "U02", "bits", "%d bits at %zu of %s: %x, expected %x", s, pos, hex(b).c_str(), got, want);
                pos += s;
            }
            c.step();
        }
    }
    // Exponential Golomb values from every position
    for (size_t start = 0; start < b.size() * 8; start += 1) {
        BitReader r(exact.data(), exact.size());
        (void)r.readBits(start);
        size_t zeros = 0;
        while (zeros < 33 && start + zeros < b.size() * 8 && bit(start + zeros) == 0) {
            zeros += 1;
        }
        const auto got = r.readUnsignedExpGolomb();
        if (zeros < 32 && start + 2 * zeros + 1 <= b.size() * 8) {
            uint64_t v = 0;
            for (size_t k = 0; k <= zeros; k += 1) {
                v = v << 1 | bit(start + zeros + k);
            }
            c.check(got == v - 1, "U02", "golomb", "at %zu of %s: %u, expected %llu", start, hex(b).c_str(), got, static_cast<unsigned long long>(v - 1));
            c.check(r.readBit() == bit(start + 2 * zeros + 1), "U02", "golomb-position", "at %zu of %s", start, hex(b).c_str());
        }
        c.step();
    }
    c.state(mcu::hashBytes(b));
    c.outcome(0);
}

void runTemp(Ctx& c)
{
    // Grows and keeps its content
    DynamicTempBuffer<uint32_t> d;
    FixedTempBuffer<uint32_t> f;
    const int counts[] = { 1, 2, 15, 16, 17, 31, 32, 33, 100 };
    for (int round = 0; round < 4; round += 1) {
        const int n = counts[c.choose(9, "count")];
        d.clear();
        for (int i = 0; i < n; i += 1) {
            *d.append() = static_cast<uint32_t>(round * 1000 + i);
            c.check(d.size() == static_cast<size_t>(i + 1), "U02", "temp", "size %zu", d.size());
        }
        for (int i = 0; i < n; i += 1) {
            c.check(d.data()[i] == static_cast<uint32_t>(round * 1000 + i), "U02", "temp", "element %d of %d", i, n);
        }
        const auto p = f.ensure(n);
        for (int i = 0; i < n; i += 1) {
            p[i] = static_cast<uint32_t>(i);
        }
        c.step();
    }
    c.state(d.size());
    c.outcome(0);
}

} // namespace

namespace mc
{

void registerScenarios(bool)
{
    env::quiet();
    add("round-trip", { "M07" }, 0, 0, runRoundTrip);
    add("foreign", { "M07", "M13" }, 0, 0, runForeign);
    add("tails", { "M07", "M13" }, 0, 0, runTails);
    add("time-source", { "M08" }, 0, 0, runTimeSource);
    add("time-pairs", { "M08" }, 0, 0, runTimePairs);
    add("builder", { "M13" }, 0, 0, runBuilder);
    add("peer-formats", { "M13" }, 0, 0, runPeerFormats);
    add("extension-strings", { "M13" }, 0, 0, runExtStrings);
    add("sources", { "M13" }, 0, 0, runSources);
    add("extension-map", { "M13" }, 0, 0, runMap);
    add("extended-16", { "M15" }, 0, 0, runExtended<uint16_t>);
    add("extended-32", { "M15" }, 0, 0, runExtended<uint32_t>);
    add("extended-long-16", { "M15" }, 0, 0, runExtendedLong<uint16_t>);
    add("extended-long-32", { "M15" }, 0, 0, runExtendedLong<uint32_t>);
    add("pool-1", { "U01" }, 0, 0, runPool<1>);
    add("pool-40", { "U01" }, 0, 0, runPool<40>);
    add("writer", { "U02" }, 0, 0, runWriter);
    add("grow", { "U02" }, 0, 0, runGrow);
    add("reader", { "U02" }, 0, 0, runReader);
    add("leb128", { "U02" }, 0, 0, runLeb);
    add("bits", { "U02" }, 0, 0, runBits);
    add("temporary", { "U02" }, 0, 0, runTemp);
}

} // namespace mc
