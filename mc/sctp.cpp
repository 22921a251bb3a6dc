// Data channels (D01 - D06): the real SCTP sessions over a simulated network with faults, against each other and
// against an independent peer, and single sessions driven packet by packet.
#include "env.h"
#include "mc.h"
#include "util_mc.h"

#include "srtc/data_channel_message.h"
#include "srtc/scheduler.h"
#include "srtc/sctp_session_listener.h"

#include "sctp/data_channel_receive_buffer.h"
#include "sctp/sctp_session.h"

#include <algorithm>
#include <map>
#include <optional>
#include <set>

using mc::Ctx;
using mcu::Bytes;

// Random values: the generator is replaced when linking (tags and initial TSNs close to the wrap)
namespace
{
std::vector<uint32_t> gRandom;
size_t gRandomPos = 0;
} // namespace

extern "C" uint32_t __wrap__ZN4srtc15RandomGeneratorIjE4nextEv(void*)
{
    if (gRandomPos < gRandom.size()) {
        return gRandom[gRandomPos++];
    }
    gRandomPos += 1;
    return 0x10000000u + static_cast<uint32_t>(gRandomPos) * 7919u;
}

namespace
{

// ----- Wire format

constexpr uint8_t tData = 0, tInit = 1, tInitAck = 2, tSack = 3, tHeartbeat = 4, tHeartbeatAck = 5, tAbort = 6,
                  tCookieEcho = 10, tCookieAck = 11, tReconfig = 0x82, tForward = 0xC0;
constexpr uint8_t fE = 1, fB = 2, fU = 4;
constexpr uint32_t pDcep = 50, pText = 51, pBinary = 53, pTextEmpty = 56, pBinaryEmpty = 57;

struct W {
    Bytes b;
    W& u8(uint32_t v)
    {
        b.push_back(static_cast<uint8_t>(v));
        return *this;
    }
    W& u16(uint32_t v)
    {
        return u8(v >> 8).u8(v);
    }
    W& u32(uint32_t v)
    {
        return u16(v >> 16).u16(v);
    }
    W& bytes(const Bytes& v)
    {
        b.insert(b.end(), v.begin(), v.end());
        return *this;
    }
    W& str(const std::string& v)
    {
        b.insert(b.end(), v.begin(), v.end());
        return *this;
    }
};

uint16_t rd16(const Bytes& b, size_t o)
{
    return static_cast<uint16_t>((b[o] << 8) | b[o + 1]);
}
uint32_t rd32(const Bytes& b, size_t o)
{
    return (static_cast<uint32_t>(rd16(b, o)) << 16) | rd16(b, o + 2);
}

uint32_t crc32c(const Bytes& b)
{
    static uint32_t table[256];
    static bool ready = false;
    if (!ready) {
        for (uint32_t i = 0; i < 256; i += 1) {
            uint32_t c = i;
            for (int k = 0; k < 8; k += 1) {
                c = (c & 1) ? (c >> 1) ^ 0x82F63B78u : c >> 1;
            }
            table[i] = c;
        }
        ready = true;
    }
    uint32_t c = 0xFFFFFFFFu;
    for (size_t i = 0; i < b.size(); i += 1) {
        const uint8_t v = (i >= 8 && i < 12) ? 0 : b[i];
        c = (c >> 8) ^ table[(c ^ v) & 0xFF];
    }
    return c ^ 0xFFFFFFFFu;
}

void fixCrc(Bytes& b)
{
    if (b.size() < 12) {
        return;
    }
    const auto c = crc32c(b);
    for (int i = 0; i < 4; i += 1) {
        b[8 + i] = static_cast<uint8_t>(c >> (8 * i));
    }
}

struct WChunk {
    uint8_t type = 0;
    uint8_t flags = 0;
    Bytes body;
};

Bytes makePacket(uint16_t sport, uint16_t dport, uint32_t tag, const std::vector<WChunk>& chunks)
{
    W w;
    w.u16(sport).u16(dport).u32(tag).u32(0);
    for (const auto& c : chunks) {
        w.u8(c.type).u8(c.flags).u16(static_cast<uint32_t>(c.body.size() + 4)).bytes(c.body);
        while (w.b.size() % 4 != 0) {
            w.u8(0);
        }
    }
    fixCrc(w.b);
    return w.b;
}

struct WPacket {
    uint16_t sport = 0, dport = 0;
    uint32_t tag = 0;
    std::vector<WChunk> chunks;

    [[nodiscard]] const WChunk* find(uint8_t type) const
    {
        for (const auto& c : chunks) {
            if (c.type == type) {
                return &c;
            }
        }
        return nullptr;
    }
};

std::optional<WPacket> parsePacket(const Bytes& b)
{
    if (b.size() < 12 || b.size() % 4 != 0) {
        return {};
    }
    Bytes copy = b;
    fixCrc(copy);
    if (copy != b) {
        return {};
    }
    WPacket p;
    p.sport = rd16(b, 0);
    p.dport = rd16(b, 2);
    p.tag = rd32(b, 4);
    size_t o = 12;
    while (o < b.size()) {
        if (b.size() - o < 4) {
            return {};
        }
        WChunk c;
        c.type = b[o];
        c.flags = b[o + 1];
        const size_t len = rd16(b, o + 2);
        if (len < 4 || o + len > b.size()) {
            return {};
        }
        c.body.assign(b.begin() + static_cast<long>(o) + 4, b.begin() + static_cast<long>(o + len));
        p.chunks.push_back(std::move(c));
        o += (len + 3) & ~size_t(3);
        if (o > b.size()) {
            return {};
        }
    }
    return p;
}

std::optional<Bytes> findParam(const Bytes& body, size_t o, uint16_t type)
{
    while (o + 4 <= body.size()) {
        const size_t len = rd16(body, o + 2);
        if (len < 4 || o + len > body.size()) {
            return {};
        }
        if (rd16(body, o) == type) {
            return Bytes(body.begin() + static_cast<long>(o) + 4, body.begin() + static_cast<long>(o + len));
        }
        o += (len + 3) & ~size_t(3);
    }
    return {};
}

WChunk dataChunk(
    uint32_t tsn, uint16_t stream, uint16_t ssn, uint8_t flags, uint32_t ppid, const Bytes& payload)
{
    return { tData, flags, W().u32(tsn).u16(stream).u16(ssn).u32(ppid).bytes(payload).b };
}

WChunk sackChunk(uint32_t cum,
                 uint32_t rwnd,
                 const std::vector<std::pair<uint16_t, uint16_t>>& gaps = {},
                 const std::vector<uint32_t>& dups = {})
{
    W w;
    w.u32(cum).u32(rwnd).u16(static_cast<uint32_t>(gaps.size())).u16(static_cast<uint32_t>(dups.size()));
    for (const auto& g : gaps) {
        w.u16(g.first).u16(g.second);
    }
    for (const auto d : dups) {
        w.u32(d);
    }
    return { tSack, 0, w.b };
}

Bytes dcepOpen(const std::string& label, uint8_t type = 0)
{
    return W().u8(3).u8(type).u16(256).u32(0).u16(static_cast<uint32_t>(label.size())).u16(0).str(label).b;
}

// ----- Applications

struct Event {
    char kind; // 'O' opened, 'T' text, 'B' binary, 'C' closed
    std::string label;
    Bytes data;
};

struct Message {
    bool text = false;
    Bytes data;

    bool operator==(const Message& o) const
    {
        return text == o.text && data == o.data;
    }
};

// Checks everything a real session sends, as a strict peer would
class Monitor
{
public:
    Monitor(Ctx& c, std::string name, uint16_t localPort, uint16_t remotePort)
        : ctx(c)
        , mName(std::move(name))
        , mLocal(localPort)
        , mRemote(remotePort)
    {
    }

    std::optional<WPacket> see(const Bytes& b)
    {
        const auto p = parsePacket(b);
        ctx.check(p.has_value(), "D06", "malformed-packet", "%s sent a malformed packet %s", mName.c_str(), mcu::hex(b).c_str());
        if (!p) {
            return {};
        }
        ctx.check(p->sport == mLocal && p->dport == mRemote,
                  "D06",
                  "ports",
                  "%s sent a packet from port %u to port %u",
                  mName.c_str(),
                  p->sport,
                  p->dport);
        ctx.check(b.size() <= 1200, "D06", "packet-size", "%s sent a packet of %zu bytes", mName.c_str(), b.size());
        ctx.check(!p->chunks.empty(), "D06", "empty-packet", "%s sent an empty packet", mName.c_str());
        for (const auto& c : p->chunks) {
            if (c.type == tInit) {
                ctx.check(p->chunks.size() == 1 && p->tag == 0,
                          "D06",
                          "init-alone",
                          "%s sent an INIT with other chunks or with a tag",
                          mName.c_str());
                if (c.body.size() >= 16) {
                    if (!mTsnKnown) {
                        mTsnKnown = true;
                        mNextTsn = rd32(c.body, 12);
                    }
                    initSent = true;
                    ctx.check(rd32(c.body, 0) != 0, "D06", "zero-tag", "%s chose tag 0", mName.c_str());
                }
            }
            if (c.type == tInitAck && c.body.size() >= 16 && !mTsnKnown) {
                mTsnKnown = true;
                mNextTsn = rd32(c.body, 12);
            }
            if (c.type == tCookieEcho) {
                cookieEchoSent = true;
            }
            if (c.type == tCookieAck) {
                cookieAckSent = true;
            }
            if (c.type == tData) {
                seeData(c);
            }
        }
        return p;
    }

    bool initSent = false;
    bool cookieEchoSent = false;
    bool cookieAckSent = false;
    uint32_t newChunks = 0;
    // The messages in the order they were first sent, by stream
    std::map<uint16_t, std::vector<Message>> messages;
    std::map<uint16_t, std::string> opened;
    std::vector<Message> all;

private:
    void seeData(const WChunk& c)
    {
        ctx.check(c.body.size() >= 12, "D06", "short-data", "%s sent a DATA chunk of %zu bytes", mName.c_str(), c.body.size());
        if (c.body.size() < 12) {
            return;
        }
        // RFC 4960 6.2: the receiver must abort the association
        ctx.check(c.body.size() > 12, "D01", "empty-data-chunk", "%s sent a DATA chunk without user data", mName.c_str());
        const auto tsn = rd32(c.body, 0);
        if (const auto it = mSent.find(tsn); it != mSent.end()) {
            ctx.check(it->second.flags == c.flags && it->second.body == c.body,
                      "D01",
                      "retransmission-differs",
                      "%s retransmitted TSN %u with other content",
                      mName.c_str(),
                      tsn);
            return;
        }
        ctx.check(!mTsnKnown || tsn == mNextTsn, "D01", "tsn-order", "%s sent TSN %u, expected %u", mName.c_str(), tsn, mNextTsn);
        mNextTsn = tsn + 1;
        mTsnKnown = true;
        mSent[tsn] = c;
        newChunks += 1;

        const auto stream = rd16(c.body, 4);
        const auto ssn = rd16(c.body, 6);
        const auto ppid = rd32(c.body, 8);
        const Bytes payload(c.body.begin() + 12, c.body.end());
        if (c.flags & fB) {
            ctx.check(!mInMessage, "D01", "message-not-ended", "%s began a message inside another", mName.c_str());
            mInMessage = true;
            mMessage = {};
            mStream = stream;
            mSsn = ssn;
            mPpid = ppid;
            mUnordered = c.flags & fU;
            if ((c.flags & fU) == 0) {
                ctx.check(ssn == mNextSsn[stream],
                          "D01",
                          "stream-sequence",
                          "%s sent stream sequence number %u on stream %u, expected %u",
                          mName.c_str(),
                          ssn,
                          stream,
                          mNextSsn[stream]);
                mNextSsn[stream] = static_cast<uint16_t>(ssn + 1);
            }
        } else {
            ctx.check(mInMessage && mStream == stream && mSsn == ssn && mPpid == ppid,
                      "D01",
                      "mixed-fragments",
                      "%s sent a fragment which does not continue the message before it",
                      mName.c_str());
            ctx.check(mUnordered == ((c.flags & fU) != 0), "D06", "unordered-flag", "%s sent an unordered message with fragments that are not, or the reverse", mName.c_str());
        }
        mMessage.insert(mMessage.end(), payload.begin(), payload.end());
        if (c.flags & fE) {
            mInMessage = false;
            if (ppid == pDcep) {
                if (mMessage.size() >= 12 && mMessage[0] == 3) {
                    const size_t len = rd16(mMessage, 8);
                    ctx.check(mMessage.size() == 12 + len, "D06", "bad-open", "%s sent a bad OPEN", mName.c_str());
                    opened[stream] = std::string(mMessage.begin() + 12, mMessage.end());
                }
            } else {
                Message m;
                m.text = ppid == pText || ppid == pTextEmpty;
                m.data = (ppid == pTextEmpty || ppid == pBinaryEmpty) ? Bytes() : mMessage;
                messages[stream].push_back(m);
                all.push_back(m);
            }
        }
    }

    Ctx& ctx;
    const std::string mName;
    const uint16_t mLocal;
    const uint16_t mRemote;
    bool mTsnKnown = false;
    uint32_t mNextTsn = 0;
    std::map<uint32_t, WChunk> mSent;
    std::map<uint16_t, uint16_t> mNextSsn;
    bool mInMessage = false;
    Bytes mMessage;
    uint16_t mStream = 0;
    uint16_t mSsn = 0;
    uint32_t mPpid = 0;
    bool mUnordered = false;
};

class Node
{
public:
    virtual ~Node() = default;
    virtual void start() = 0;
    virtual void receive(const Bytes& b) = 0;
    // Microseconds until the next timer, negative for none
    virtual int64_t nextTimer() = 0;
    virtual void runTimers() = 0;
    virtual bool canSend(const std::string& label) = 0;
    virtual void send(const std::string& label, const Message& m) = 0;

    std::function<void(const Bytes&)> out;
    std::function<void(const Event&)> onEvent;
    std::vector<Event> events;

protected:
    void emit(char kind, const std::string& label, const Bytes& data)
    {
        events.push_back({ kind, label, data });
        if (onEvent) {
            // The handler may cause other events
            const Event e{ kind, label, data };
            onEvent(e);
        }
    }
};

// ----- The real session

class RealNode final : public Node, public srtc::sctp::SctpSessionListener
{
public:
    RealNode(Ctx& c,
             const std::string& name,
             bool remoteActive,
             const std::vector<std::string>& labels,
             uint16_t localPort = 5000,
             uint16_t remotePort = 5001,
             uint32_t maxMessageSize = 262144)
        : ctx(c)
        , monitor(c, name, localPort, remotePort)
        , mScheduler(std::make_shared<srtc::LoopScheduler>())
    {
        session = std::make_shared<srtc::sctp::SctpSession>(
            mScheduler, this, localPort, remotePort, maxMessageSize, remoteActive, labels);
    }

    ~RealNode() override
    {
        out = nullptr;
        onEvent = nullptr;
        session.reset();
        mScheduler->run();
        // Over the whole life, a channel is reported closed no more often than it was reported open
        std::map<std::string, int> opened;
        for (const auto& e : events) {
            if (e.kind == 'O') {
                opened[e.label] += 1;
            } else if (e.kind == 'C') {
                opened[e.label] -= 1;
                ctx.check(opened[e.label] >= 0, "D06", "closed-not-open", "channel '%s' was reported closed without being open", e.label.c_str());
            }
        }
    }

    void start() override
    {
        session->start();
    }

    void receive(const Bytes& b) override
    {
        ctx.step();
        const auto buf = mcu::toBuf(b);
        session->onReceiveData(buf);
    }

    int64_t nextTimer() override
    {
        const auto ms = mScheduler->getTimeoutMillis(-1);
        return ms < 0 ? -1 : int64_t(ms) * 1000;
    }

    void runTimers() override
    {
        mScheduler->run();
    }

    bool canSend(const std::string& label) override
    {
        return session->isChannelOpen(label);
    }

    void send(const std::string& label, const Message& m) override
    {
        if (m.text) {
            session->send(srtc::DataChannelMessage::makeText(label, std::string(m.data.begin(), m.data.end())));
        } else {
            session->send(srtc::DataChannelMessage::makeBinary(label, mcu::toBuf(m.data)));
        }
    }

    void onSctpSendPacket(const srtc::ByteBuffer& packet) override
    {
        const auto b = mcu::toBytes(packet);
        monitor.see(b);
        if (out) {
            out(b);
        }
    }
    void onSctpDataChannelOpen(const std::string& label) override
    {
        emit('O', label, {});
    }
    void onSctpDataChannelText(const std::string& label, const std::string& text) override
    {
        emit('T', label, Bytes(text.begin(), text.end()));
    }
    void onSctpDataChannelBinary(const std::string& label, const srtc::ByteBuffer& data) override
    {
        emit('B', label, mcu::toBytes(data));
    }
    void onSctpDataChannelClose(const std::string& label) override
    {
        emit('C', label, {});
    }

    Ctx& ctx;
    Monitor monitor;
    std::shared_ptr<srtc::sctp::SctpSession> session;

private:
    std::shared_ptr<srtc::LoopScheduler> mScheduler;
};

// ----- An independent peer, as RFC 4960, 8831 and 8832 describe it

// Blocks are in order and apart from what is acknowledged anyway
void checkGaps(Ctx& ctx, const Bytes& b)
{
    uint32_t last = 1;
    for (size_t i = 0; i < rd16(b, 8) && 16 + i * 4 <= b.size(); i += 1) {
        const uint32_t from = rd16(b, 12 + i * 4), to = rd16(b, 14 + i * 4);
        ctx.check(from > last && to >= from, "D06", "gap-order", "SACK: gap block %zu, %u to %u, after %u", i, from, to, last);
        last = to;
    }
}

class RefNode final : public Node
{
public:
    enum Mode {
        kPassive, // Never sends an INIT of its own
        kActive,  // Does
    };

    RefNode(Ctx& c, Mode mode, uint16_t firstStream, const std::vector<std::string>& labels, uint32_t tag, uint32_t tsn)
        : ctx(c)
        , mMode(mode)
        , mTag(tag)
        , mInitialTsn(tsn)
        , mNextTsn(tsn)
    {
        uint16_t s = firstStream;
        for (const auto& l : labels) {
            mChannels[s].label = l;
            mChannels[s].own = true;
            s = static_cast<uint16_t>(s + 2);
        }
    }

    // Whether data may be sent right after the OPEN, as browsers do
    bool eager = true;
    // Bundle chunks where it is possible
    bool bundle = false;

    void start() override
    {
        if (mMode == kActive && mState == kClosed) {
            mState = kWait;
            sendInit();
        }
    }

    int64_t nextTimer() override
    {
        int64_t at = -1;
        for (const auto t : { mT1, mT3 }) {
            if (t >= 0 && (at < 0 || t < at)) {
                at = t;
            }
        }
        return at < 0 ? -1 : std::max<int64_t>(0, at - env::nowUs());
    }

    void runTimers() override
    {
        if (mT1 >= 0 && mT1 <= env::nowUs()) {
            mT1 = -1;
            mT1Count += 1;
            if (mT1Count < 8) {
                if (mState == kWait) {
                    sendInit();
                } else if (mState == kEchoed) {
                    sendEcho();
                }
            }
        }
        if (mT3 >= 0 && mT3 <= env::nowUs()) {
            mT3 = -1;
            for (const auto& it : mSent) {
                transmit({ it.second });
            }
            armT3();
        }
    }

    bool canSend(const std::string& label) override
    {
        return findChannel(label) != nullptr;
    }

    void send(const std::string& label, const Message& m) override
    {
        const auto* found = findChannel(label);
        if (found == nullptr) {
            return;
        }
        const auto stream = *found;
        if (m.data.empty()) {
            enqueue(stream, m.text ? pTextEmpty : pBinaryEmpty, Bytes(1, 0));
        } else {
            enqueue(stream, m.text ? pText : pBinary, m.data);
        }
    }

    void receive(const Bytes& b) override
    {
        const auto p = parsePacket(b);
        if (!p || p->chunks.empty()) {
            return;
        }
        const bool init = p->chunks[0].type == tInit;
        if (init ? (p->tag != 0 || p->chunks.size() != 1) : (p->tag != mTag)) {
            // A COOKIE ECHO carries the tag given in the INIT ACK
            if (!(p->chunks[0].type == tCookieEcho && p->tag == mNewTag && mNewTag != 0)) {
                return;
            }
        }
        mSackDue = false;
        for (const auto& c : p->chunks) {
            onChunk(c, p->tag);
        }
        if (mSackDue) {
            sendSack();
        }
    }

    [[nodiscard]] bool established() const
    {
        return mState == kEstablished;
    }

    struct Channel {
        std::string label;
        bool own = false;
        bool opened = false; // OPEN sent, or received
        bool acked = false;
        uint16_t sendSsn = 0;
        uint16_t recvSsn = 0;
        Bytes partial;
    };
    std::map<uint16_t, Channel> mChannels;

private:
    void sendInit()
    {
        out(makePacket(5001,
                       5000,
                       0,
                       { { tInit, 0, W().u32(mTag).u32(200000).u16(100).u16(100).u32(mInitialTsn).b } }));
        mT1 = env::nowUs() + 300'000;
    }

    void sendEcho()
    {
        out(makePacket(5001, 5000, mPeerTag, { { tCookieEcho, 0, mCookie } }));
        mT1 = env::nowUs() + 300'000;
    }

    void onChunk(const WChunk& c, uint32_t tag)
    {
        const auto& b = c.body;
        switch (c.type) {
        case tInit: {
            if (b.size() < 16) {
                return;
            }
            // RFC 4960 5.2.1, 5.2.2: the same tag while the association is being established, a new one and the tie
            // tags when it is there
            uint32_t myTag = mTag;
            uint32_t tieLocal = 0, tiePeer = 0;
            if (mState == kEstablished) {
                mNewTag = mTag + 0x01010101u;
                myTag = mNewTag;
                tieLocal = mTag;
                tiePeer = mPeerTag;
            }
            W cookie;
            cookie.u32(rd32(b, 0)).u32(rd32(b, 12)).u32(rd32(b, 4)).u32(myTag).u32(tieLocal).u32(tiePeer);
            cookie.u32(0x5ec4e7u);
            W w;
            w.u32(myTag).u32(200000).u16(100).u16(100).u32(mInitialTsn);
            w.u16(0x8008).u16(6).u16(0x82C0).u16(0); // padded parameter before the cookie
            w.u16(7).u16(static_cast<uint32_t>(4 + cookie.b.size())).bytes(cookie.b);
            out(makePacket(5001, 5000, rd32(b, 0), { { tInitAck, 0, w.b } }));
            break;
        }
        case tInitAck: {
            if (mState != kWait || b.size() < 16) {
                return;
            }
            const auto cookie = findParam(b, 16, 7);
            ctx.check(cookie.has_value(), "D06", "no-cookie", "INIT ACK without a cookie");
            if (!cookie) {
                return;
            }
            mPeerTag = rd32(b, 0);
            mCum = rd32(b, 12) - 1;
            mCookie = *cookie;
            mState = kEchoed;
            mT1Count = 0;
            sendEcho();
            break;
        }
        case tCookieEcho: {
            if (b.size() != 28 || rd32(b, 24) != 0x5ec4e7u) {
                return;
            }
            const auto peerTag = rd32(b, 0);
            const auto myTag = rd32(b, 12);
            if (mState == kEstablished) {
                // RFC 4960 5.2.4, table 2
                if (myTag == mTag && peerTag == mPeerTag) {
                    out(makePacket(5001, 5000, mPeerTag, { { tCookieAck, 0, {} } }));
                }
                // Anything else is another association, or is discarded
                return;
            }
            (void)tag;
            mPeerTag = peerTag;
            mCum = rd32(b, 4) - 1;
            mState = kEstablished;
            mT1 = -1;
            mPendingAck = true;
            onEstablished();
            break;
        }
        case tCookieAck:
            if (mState == kEchoed) {
                mState = kEstablished;
                mT1 = -1;
                onEstablished();
            }
            break;
        case tData:
            if (mState == kEchoed) {
                mState = kEstablished;
                mT1 = -1;
                onEstablished();
            }
            if (mState == kEstablished) {
                onData(c);
            }
            break;
        case tSack:
            if (mState == kEstablished) {
                onSack(b);
            }
            break;
        default:
            break;
        }
    }

    void onEstablished()
    {
        std::vector<WChunk> first;
        if (mPendingAck) {
            mPendingAck = false;
            first.push_back({ tCookieAck, 0, {} });
        }
        if (!bundle && !first.empty()) {
            out(makePacket(5001, 5000, mPeerTag, first));
            first.clear();
        }
        mHold = first;
        std::vector<uint16_t> streams;
        for (const auto& it : mChannels) {
            if (it.second.own) {
                streams.push_back(it.first);
            }
        }
        for (const auto s : streams) {
            enqueue(s, pDcep, dcepOpen(mChannels[s].label));
            mChannels[s].opened = true;
        }
        if (!mHold.empty()) {
            out(makePacket(5001, 5000, mPeerTag, mHold));
            mHold.clear();
        }
        if (eager) {
            for (const auto s : streams) {
                emit('O', mChannels[s].label, {});
            }
        }
    }

    const uint16_t* findChannel(const std::string& label)
    {
        if (mState != kEstablished) {
            return nullptr;
        }
        for (const auto& it : mChannels) {
            if (it.second.label == label && it.second.opened && (!it.second.own || eager || it.second.acked)) {
                return &it.first;
            }
        }
        return nullptr;
    }

    void transmit(const std::vector<WChunk>& chunks)
    {
        auto all = mHold;
        mHold.clear();
        all.insert(all.end(), chunks.begin(), chunks.end());
        out(makePacket(5001, 5000, mPeerTag, all));
    }

    void enqueue(uint16_t stream, uint32_t ppid, const Bytes& data)
    {
        auto& ch = mChannels[stream];
        const auto ssn = ch.sendSsn++;
        size_t o = 0;
        do {
            const auto n = std::min<size_t>(data.size() - o, 1000);
            uint8_t flags = 0;
            if (o == 0) {
                flags |= fB;
            }
            if (o + n == data.size()) {
                flags |= fE;
            }
            const auto c = dataChunk(mNextTsn,
                                     stream,
                                     ssn,
                                     flags,
                                     ppid,
                                     Bytes(data.begin() + static_cast<long>(o), data.begin() + static_cast<long>(o + n)));
            mSent[mNextTsn - mInitialTsn] = c;
            mNextTsn += 1;
            transmit({ c });
            o += n;
        } while (o < data.size());
        if (mT3 < 0) {
            armT3();
        }
    }

    void armT3()
    {
        mT3 = mSent.empty() ? -1 : env::nowUs() + 300'000;
    }

    void onSack(const Bytes& b)
    {
        if (b.size() < 12) {
            return;
        }
        const auto cum = rd32(b, 0);
        const size_t gaps = rd16(b, 8);
        ctx.check(b.size() == 12 + gaps * 4, "D06", "bad-sack", "SACK of %zu bytes with %zu gap blocks", b.size(), gaps);
        std::set<uint32_t> acked;
        for (const auto& it : mSent) {
            if (static_cast<int32_t>(mInitialTsn + it.first - cum) <= 0) {
                acked.insert(it.first);
            }
        }
        checkGaps(ctx, b);
        for (size_t i = 0; i < gaps && 16 + i * 4 <= b.size(); i += 1) {
            for (uint32_t o = rd16(b, 12 + i * 4); o <= rd16(b, 14 + i * 4); o += 1) {
                acked.insert(cum + o - mInitialTsn);
            }
        }
        // Acknowledged for good: the session must not forget what it said it has
        for (const auto a : acked) {
            mSent.erase(a);
        }
        armT3();
    }

    void onData(const WChunk& c)
    {
        if (c.body.size() < 13) {
            return;
        }
        const auto tsn = rd32(c.body, 0);
        mSackDue = true;
        if (static_cast<int32_t>(tsn - mCum) <= 0) {
            return;
        }
        mReceived[tsn] = c;
        while (true) {
            const auto it = mReceived.find(mCum + 1);
            if (it == mReceived.end()) {
                break;
            }
            mCum += 1;
            const auto d = it->second;
            mReceived.erase(it);
            deliver(d);
        }
    }

    void sendSack()
    {
        // Gaps in order of their distance, so that a wrap of the numbers does not matter
        std::vector<uint32_t> offs;
        for (const auto& it : mReceived) {
            offs.push_back(it.first - mCum);
        }
        std::sort(offs.begin(), offs.end());
        std::vector<std::pair<uint16_t, uint16_t>> gaps;
        for (const auto o : offs) {
            if (!gaps.empty() && gaps.back().second + 1u == o) {
                gaps.back().second = static_cast<uint16_t>(o);
            } else {
                gaps.emplace_back(o, o);
            }
        }
        transmit({ sackChunk(mCum, 200000, gaps) });
    }

    void deliver(const WChunk& c)
    {
        const auto stream = rd16(c.body, 4);
        const auto ssn = rd16(c.body, 6);
        const auto ppid = rd32(c.body, 8);
        const Bytes payload(c.body.begin() + 12, c.body.end());
        if (c.flags & fB) {
            mChannels[stream].partial.clear();
        }
        auto& ch = mChannels[stream];
        ch.partial.insert(ch.partial.end(), payload.begin(), payload.end());
        if ((c.flags & fE) == 0) {
            return;
        }
        const auto data = ch.partial;
        ctx.check(ssn == ch.recvSsn,
                  "D01",
                  "stream-sequence",
                  "the peer got stream sequence number %u on stream %u, expected %u",
                  ssn,
                  stream,
                  ch.recvSsn);
        ch.recvSsn = static_cast<uint16_t>(ssn + 1);
        if (ppid == pDcep) {
            if (data.size() >= 12 && data[0] == 3) {
                const size_t len = rd16(data, 8);
                ctx.check(!ch.opened, "D02", "opened-twice", "OPEN for stream %u, which is open", stream);
                ctx.check(data.size() >= 12 + len, "D06", "bad-open", "OPEN with a label of %zu bytes in %zu", len, data.size());
                if (data.size() < 12 + len) {
                    return;
                }
                ch.label = std::string(data.begin() + 12, data.begin() + 12 + static_cast<long>(len));
                ch.opened = true;
                const auto label = ch.label;
                enqueue(stream, pDcep, { 2 });
                emit('O', label, {});
            } else if (data.size() == 1 && data[0] == 2) {
                ctx.check(ch.own && !ch.acked, "D02", "acked-twice", "unexpected ACK for stream %u", stream);
                if (!ch.acked) {
                    ch.acked = true;
                    if (!eager) {
                        emit('O', ch.label, {});
                    }
                }
            } else {
                ctx.check(false, "D06", "bad-dcep", "unknown DCEP message %s", mcu::hex(data).c_str());
            }
            return;
        }
        if (!ch.opened) {
            ctx.check(false, "D02", "data-before-open", "the session sent data on stream %u, which is not open", stream);
            return;
        }
        if (ppid == pText || ppid == pTextEmpty) {
            emit('T', ch.label, ppid == pTextEmpty ? Bytes() : data);
        } else {
            emit('B', ch.label, ppid == pBinaryEmpty ? Bytes() : data);
        }
    }

    enum State {
        kClosed,
        kWait,
        kEchoed,
        kEstablished
    };

    Ctx& ctx;
    const Mode mMode;
    const uint32_t mTag;
    const uint32_t mInitialTsn;
    State mState = kClosed;
    uint32_t mNewTag = 0;
    uint32_t mPeerTag = 0;
    uint32_t mCum = 0;
    uint32_t mNextTsn;
    Bytes mCookie;
    bool mPendingAck = false;
    bool mSackDue = false;
    std::vector<WChunk> mHold;
    std::map<uint32_t, WChunk> mSent; // by distance from the first
    std::map<uint32_t, WChunk> mReceived;
    int64_t mT1 = -1;
    int mT1Count = 0;
    int64_t mT3 = -1;
};

// ----- The network, and what the applications expect

struct Post {
    int from;
    std::string label;
    int64_t afterOpenMs; // 0: from the callback
    bool text;
    size_t size;
};

class World
{
public:
    World(Ctx& c, int faultWindow, int fates = 7)
        : ctx(c)
        , mFaultWindow(faultWindow)
        , mFates(fates)
    {
    }

    void attach(int i, Node* n)
    {
        nodes[i] = n;
        started[i] = false;
        n->out = [this, i](const Bytes& b) { sent(i, b); };
        n->onEvent = [this, i](const Event& e) { event(i, e); };
    }

    Node* nodes[2] = {};
    bool started[2] = {};
    std::vector<Post> posts;
    // Accepted for delivery to node i
    std::map<std::string, std::vector<Message>> expect[2];
    std::map<std::string, size_t> delivered[2];
    std::map<std::string, int> opens[2];
    std::function<void(int, const Event&)> watch;
    bool sameLabel = false;
    bool brokenOrder = false;

    void startAt(int i, int64_t us)
    {
        mStarts.emplace_back(us, i);
    }

    // Until nothing is left to happen
    void run(int64_t limitUs)
    {
        const char* prop = ctx.deciding("D02") ? "D02" : "D01";
        while (true) {
            int64_t next = -1;
            const auto consider = [&next](int64_t t) {
                if (next < 0 || t < next) {
                    next = t;
                }
            };
            for (const auto& s : mStarts) {
                consider(s.first);
            }
            for (const auto& f : mFlying) {
                consider(f.at);
            }
            for (const auto& a : mActions) {
                consider(a.at);
            }
            for (int i = 0; i < 2; i += 1) {
                const auto t = nodes[i]->nextTimer();
                if (t >= 0) {
                    consider(env::nowUs() + t);
                }
            }
            if (next < 0) {
                break;
            }
            if (next > limitUs) {
                ctx.check(false, prop, "no-end", "still exchanging packets after %lld ms", (long long)(limitUs / 1000));
                break;
            }
            if (next > env::nowUs()) {
                env::setUs(next);
            }
            step();
        }
    }

    uint64_t hash = 0;
    int packets = 0;

private:
    struct Flying {
        int64_t at;
        uint64_t seq;
        int to;
        Bytes data;
    };
    struct Action {
        int64_t at;
        size_t post;
    };

    void step()
    {
        const auto now = env::nowUs();
        for (size_t k = 0; k < mStarts.size(); k += 1) {
            if (mStarts[k].first <= now) {
                const auto i = mStarts[k].second;
                mStarts.erase(mStarts.begin() + static_cast<long>(k));
                started[i] = true;
                nodes[i]->start();
                return;
            }
        }
        // The earliest packet
        size_t best = mFlying.size();
        for (size_t k = 0; k < mFlying.size(); k += 1) {
            if (mFlying[k].at <= now && (best == mFlying.size() || std::make_pair(mFlying[k].at, mFlying[k].seq) <
                                                                       std::make_pair(mFlying[best].at, mFlying[best].seq))) {
                best = k;
            }
        }
        if (best < mFlying.size()) {
            const auto f = mFlying[best];
            mFlying.erase(mFlying.begin() + static_cast<long>(best));
            if (ctx.verbose()) {
                ctx.log("%8lld ms  %c receives %s", (long long)(now / 1000), 'A' + f.to, describe(f.data).c_str());
            }
            // Before its transport is connected it receives nothing
            if (started[f.to]) {
                nodes[f.to]->receive(f.data);
            }
            return;
        }
        for (size_t k = 0; k < mActions.size(); k += 1) {
            if (mActions[k].at <= now) {
                const auto p = mActions[k].post;
                mActions.erase(mActions.begin() + static_cast<long>(k));
                post(posts[p], p);
                return;
            }
        }
        for (auto* n : nodes) {
            if (n->nextTimer() == 0) {
                n->runTimers();
            }
        }
    }

    static std::string describe(const Bytes& b)
    {
        static const std::map<int, const char*> names = { { 0, "DATA" },        { 1, "INIT" },      { 2, "INIT-ACK" },
                                                          { 3, "SACK" },        { 4, "HEARTBEAT" }, { 5, "HEARTBEAT-ACK" },
                                                          { 10, "COOKIE-ECHO" }, { 11, "COOKIE-ACK" }, { 0x82, "RECONFIG" } };
        const auto p = parsePacket(b);
        if (!p) {
            return "garbage";
        }
        std::string r;
        for (const auto& c : p->chunks) {
            const auto it = names.find(c.type);
            r += it == names.end() ? "?" : it->second;
            if (c.type == tData && c.body.size() >= 12) {
                char tmp[100];
                snprintf(tmp, sizeof(tmp), "(tsn %u stream %u ssn %u ppid %u flags %d, %zu bytes)", rd32(c.body, 0),
                         rd16(c.body, 4), rd16(c.body, 6), rd32(c.body, 8), c.flags, c.body.size() - 12);
                r += tmp;
            } else if (c.type == tSack && c.body.size() >= 12) {
                char tmp[100];
                snprintf(tmp, sizeof(tmp), "(cum %u, window %u, %u gaps)", rd32(c.body, 0), rd32(c.body, 4), rd16(c.body, 8));
                r += tmp;
            }
            r += " ";
        }
        return r;
    }

    void sent(int from, const Bytes& b)
    {
        packets += 1;
        hash = mc::mix(hash, b.size() * 2 + static_cast<size_t>(from));
        int fate = 0;
        if (packets <= mFaultWindow) {
            fate = ctx.deviate(mFates, "fate");
        }
        if (fate != 0) {
            static const char* const names[] = { "", "lost", "1 ms late", "400 ms late", "twice, 400 ms late", "35 ms late",
                                                 "twice" };
            ctx.log("%8lld ms  %c sends packet %d: %s - %s", (long long)(env::nowUs() / 1000), 'A' + from, packets,
                    describe(b).c_str(), names[fate]);
        }
        const int to = 1 - from;
        const auto at = env::nowUs() + 10'000;
        const auto fly = [&](int64_t t) { mFlying.push_back({ t, ++mSeq, to, b }); };
        switch (fate) {
        case 0:
            fly(at);
            break;
        case 1:
            break;
        case 2:
            fly(at + 1'000);
            break;
        case 3:
            fly(at + 400'000);
            break;
        case 4:
            fly(at);
            fly(at + 400'000);
            break;
        case 5:
            fly(at + 35'000);
            break;
        default:
            fly(at);
            fly(at + 35'000);
            break;
        }
    }

    void event(int i, const Event& e)
    {
        hash = mc::mix(hash, static_cast<uint64_t>(e.kind) * 4 + static_cast<uint64_t>(i));
        ctx.log("%8lld ms  %c: %s %s (%zu bytes)",
                (long long)(env::nowUs() / 1000),
                'A' + i,
                e.kind == 'O' ? "opened" : (e.kind == 'C' ? "closed" : "message on"),
                e.label.c_str(),
                e.data.size());
        if (watch) {
            watch(i, e);
        }
        if (e.kind == 'O') {
            opens[i][e.label] += 1;
            if (opens[i][e.label] == 1) {
                for (size_t k = 0; k < posts.size(); k += 1) {
                    if (posts[k].from == i && posts[k].label == e.label) {
                        if (posts[k].afterOpenMs == 0) {
                            post(posts[k], k);
                        } else {
                            mActions.push_back({ env::nowUs() + posts[k].afterOpenMs * 1000, k });
                        }
                    }
                }
            }
        } else if (e.kind == 'T' || e.kind == 'B') {
            Message m;
            m.text = e.kind == 'T';
            m.data = e.data;
            auto& list = expect[i][e.label];
            auto& n = delivered[i][e.label];
            if (sameLabel) {
                const auto it = std::find(list.begin(), list.end(), m);
                ctx.check(it != list.end(), "D01", "unexpected-message", "%c got a message of %zu bytes on '%s' which was not sent, or again",
                          'A' + i, m.data.size(), e.label.c_str());
                if (it != list.end()) {
                    list.erase(it);
                }
                return;
            }
            if (n >= list.size()) {
                ctx.check(false, "D01", "unexpected-message", "%c got message %zu on '%s', only %zu were sent", 'A' + i, n, e.label.c_str(), list.size());
            } else if (!(list[n] == m)) {
                const char* key = "wrong-content";
                for (size_t k = 0; k < list.size(); k += 1) {
                    if (list[k] == m) {
                        key = k < n ? "delivered-again" : "out-of-order";
                    }
                }
                ctx.check(false, "D01", key, "%c got, as message %zu on '%s', %s of %zu bytes instead of %s of %zu bytes", 'A' + i, n,
                          e.label.c_str(), m.text ? "text" : "binary", m.data.size(), list[n].text ? "text" : "binary", list[n].data.size());
            }
            n += 1;
        }
    }

    void post(const Post& p, size_t id)
    {
        Message m;
        m.text = p.text;
        m.data = mcu::pattern(ctx.seed(), 1000 + id, p.size);
        if (!nodes[p.from]->canSend(p.label)) {
            ctx.check(false, "D02", "open-but-cannot-send", "%c reported '%s' open, but does not accept messages", 'A' + p.from, p.label.c_str());
            return;
        }
        ctx.log("%8lld ms  %c sends %s of %zu bytes on %s", (long long)(env::nowUs() / 1000), 'A' + p.from, m.text ? "text" : "binary", m.data.size(), p.label.c_str());
        expect[1 - p.from][p.label].push_back(m);
        nodes[p.from]->send(p.label, m);
    }

    Ctx& ctx;
    const int mFaultWindow;
    const int mFates;
    std::vector<std::pair<int64_t, int>> mStarts;
    std::vector<Flying> mFlying;
    std::vector<Action> mActions;
    uint64_t mSeq = 0;
};

void begin(Ctx& ctx, const std::vector<uint32_t>& randoms)
{
    env::reset(ctx.seed());
    env::setUs(1'000'000);
    gRandom = randoms;
    gRandomPos = 0;
}

void finish(Ctx& ctx, World& w, const std::vector<std::string>& labels)
{
    for (int i = 0; i < 2; i += 1) {
        for (const auto& l : labels) {
            const auto n = w.opens[i][l];
            if (w.sameLabel) {
                ctx.check(n == 2, "D02", "opened", "%c: the two channels '%s' were reported open %d times", 'A' + i, l.c_str(), n);
            } else {
                ctx.check(n == 1, "D02", n == 0 ? "not-opened" : "opened-twice", "%c: '%s' was reported open %d times", 'A' + i, l.c_str(), n);
            }
        }
        for (const auto& it : w.expect[i]) {
            if (w.sameLabel) {
                ctx.check(it.second.empty(), "D01", "not-delivered", "%c: %zu messages on '%s' were not delivered", 'A' + i, it.second.size(), it.first.c_str());
            } else {
                ctx.check(w.delivered[i][it.first] == it.second.size(),
                          "D01",
                          "not-delivered",
                          "%c: %zu of %zu messages on '%s' were delivered",
                          'A' + i,
                          w.delivered[i][it.first],
                          it.second.size(),
                          it.first.c_str());
            }
        }
    }
    ctx.outcome(w.hash);
}

const int64_t kLimit = 200'000'000;

std::vector<Post> openPosts(const std::vector<std::string>& labels)
{
    std::vector<Post> r;
    for (const auto& l : labels) {
        for (int i = 0; i < 2; i += 1) {
            r.push_back({ i, l, 0, true, 3 + r.size() });
        }
    }
    return r;
}

std::vector<Post> transferPosts(Ctx& ctx, const std::vector<std::string>& labels)
{
    const int kind = ctx.choose(ctx.thorough() ? 4 : 3, "workload");
    std::vector<Post> r;
    for (const auto& l : labels) {
        for (int i = 0; i < 2; i += 1) {
            switch (kind) {
            case 0: // Small, spread in time
                r.push_back({ i, l, 0, true, 1 });
                r.push_back({ i, l, 5, false, 40 });
                r.push_back({ i, l, 300, true, 41 });
                break;
            case 1: // Empty and fragmented ones, all at once
                r.push_back({ i, l, 0, true, 0 });
                r.push_back({ i, l, 0, false, 2300 });
                r.push_back({ i, l, 0, false, 0 });
                r.push_back({ i, l, 0, true, 7 });
                break;
            case 2: // Around the size of a fragment
                r.push_back({ i, l, 0, false, 1100 });
                r.push_back({ i, l, 0, true, 1101 });
                r.push_back({ i, l, 15, true, 1 });
                break;
            default:
                r.push_back({ i, l, 0, false, 5000 });
                r.push_back({ i, l, 1, true, 0 });
                r.push_back({ i, l, 1, false, 2201 });
                r.push_back({ i, l, 260, false, 3 });
                break;
            }
        }
    }
    return r;
}

// Nothing is reported open before the peer can know of the association
void watchEstablished(Ctx& ctx, World& w, RealNode* a, RealNode* b)
{
    w.watch = [&ctx, a, b](int i, const Event& e) {
        const auto* self = i == 0 ? a : b;
        if (self != nullptr) {
            ctx.check(self->monitor.cookieEchoSent || self->monitor.cookieAckSent,
                      "D02",
                      "before-established",
                      "%c: %c '%s' before the association is established",
                      'A' + i,
                      e.kind,
                      e.label.c_str());
        }
    };
}

void starts(Ctx& ctx, World& w)
{
    static const int64_t when[][2] = { { 0, 0 }, { 0, 15'000 }, { 15'000, 0 }, { 0, 300'000 }, { 300'000, 0 } };
    const int k = ctx.choose(5, "start");
    w.startAt(0, env::nowUs() + when[k][0]);
    w.startAt(1, env::nowUs() + when[k][1]);
}

const std::vector<uint32_t> kRandoms = { 0xFFFFFF01u, 0xFFFFFFFDu, 1, 2, 3, 4, 0xFFFFFF02u, 0xFFFFFFFBu };

void runTwo(Ctx& ctx, bool transfer)
{
    begin(ctx, kRandoms);
    const int window = transfer ? (ctx.thorough() ? 90 : 60) : 40;
    World w(ctx, window);
    const int shape = ctx.choose(3, "channels");
    std::vector<std::string> la, lb, labels;
    if (shape == 0) {
        la = { "a" };
        lb = { "b" };
        labels = { "a", "b" };
    } else if (shape == 1) {
        la = { "a", "c" };
        labels = { "a", "c" };
    } else {
        la = { "x" };
        lb = { "x" };
        labels = { "x" };
        w.sameLabel = true;
    }
    RealNode a(ctx, "A", false, la, 5000, 5001);
    RealNode b(ctx, "B", true, lb, 5001, 5000);
    w.attach(0, &a);
    w.attach(1, &b);
    w.posts = transfer ? transferPosts(ctx, labels) : openPosts(labels);
    watchEstablished(ctx, w, &a, &b);
    starts(ctx, w);
    w.run(kLimit);
    finish(ctx, w, labels);
}

void runPeer(Ctx& ctx, bool transfer)
{
    begin(ctx, kRandoms);
    const int window = transfer ? (ctx.thorough() ? 90 : 60) : 40;
    World w(ctx, window);
    const bool active = ctx.flip("peer starts too");
    const bool bundle = ctx.flip("peer bundles");
    const bool eager = transfer ? true : ctx.flip("peer is eager");
    const std::vector<std::string> la = { "a" };
    const std::vector<std::string> lb = { "b" };
    const std::vector<std::string> labels = { "a", "b" };
    RealNode a(ctx, "A", false, la, 5000, 5001);
    RefNode b(ctx, active ? RefNode::kActive : RefNode::kPassive, 1, lb, 0xABCD0001u, 0xFFFFFFFEu);
    b.bundle = bundle;
    b.eager = eager;
    w.attach(0, &a);
    w.attach(1, &b);
    w.posts = transfer ? transferPosts(ctx, labels) : openPosts(labels);
    watchEstablished(ctx, w, &a, nullptr);
    starts(ctx, w);
    w.run(kLimit);
    finish(ctx, w, labels);
}


// Two and more faults, of the kinds which matter most
void runTwoDeep(Ctx& ctx)
{
    begin(ctx, kRandoms);
    World w(ctx, ctx.thorough() ? 60 : 32, 5);
    const bool peer = ctx.flip("independent peer");
    RealNode a(ctx, "A", false, { "a" }, 5000, 5001);
    std::unique_ptr<Node> b;
    RealNode* realB = nullptr;
    if (peer) {
        b = std::make_unique<RefNode>(ctx, RefNode::kActive, 1, std::vector<std::string>{ "b" }, 0xABCD0001u, 0xFFFFFFFEu);
    } else {
        auto r = std::make_unique<RealNode>(ctx, "B", true, std::vector<std::string>{ "b" }, 5001, 5000);
        realB = r.get();
        b = std::move(r);
    }
    w.attach(0, &a);
    w.attach(1, b.get());
    w.posts = { { 0, "a", 0, false, 1101 }, { 1, "a", 0, true, 2 },  { 0, "b", 0, true, 0 },  { 1, "b", 0, false, 1500 },
                { 0, "a", 0, true, 9 },     { 1, "b", 30, true, 4 }, { 0, "b", 30, false, 5 } };
    watchEstablished(ctx, w, &a, realB);
    w.startAt(0, env::nowUs());
    w.startAt(1, env::nowUs() + 15'000);
    w.run(kLimit);
    finish(ctx, w, { "a", "b" });
}

// Messages larger than the window, and up to the limit
void runBulk(Ctx& ctx)
{
    begin(ctx, kRandoms);
    World w(ctx, 1'000'000, ctx.thorough() ? 7 : 3);
    static const size_t sizes[] = { 131072, 262144, 131073, 60000 };
    const auto size = sizes[ctx.choose(ctx.thorough() ? 4 : 2, "size")];
    const bool peer = ctx.flip("independent peer");
    RealNode a(ctx, "A", false, { "a" }, 5000, 5001);
    std::unique_ptr<Node> b;
    if (peer) {
        b = std::make_unique<RefNode>(ctx, RefNode::kActive, 1, std::vector<std::string>{}, 0xABCD0001u, 0xFFFFFFFEu);
    } else {
        b = std::make_unique<RealNode>(ctx, "B", true, std::vector<std::string>{}, 5001, 5000);
    }
    w.attach(0, &a);
    w.attach(1, b.get());
    w.posts = { { 0, "a", 0, false, size }, { 0, "a", 0, true, 5 }, { 0, "a", 0, true, 0 }, { 0, "a", 7, false, 3000 } };
    w.startAt(0, env::nowUs());
    w.startAt(1, env::nowUs());
    w.run(kLimit);
    finish(ctx, w, { "a" });
}

// ----- One session, driven packet by packet

constexpr uint32_t kPeerTag = 0xBEEF0001u;

struct Direct {
    Ctx& ctx;
    RealNode a;
    std::vector<WPacket> sent;
    std::vector<Bytes> raw;
    uint32_t tag = 0;     // of the session
    uint32_t tsn0 = 0;    // of the session
    uint32_t peerTsn = 0; // next of the peer
    size_t seen = 0;

    Direct(Ctx& c, const std::vector<std::string>& labels, uint32_t firstPeerTsn)
        : ctx(c)
        , a(c, "the session", false, labels, 5000, 5001)
        , peerTsn(firstPeerTsn)
    {
        a.out = [this](const Bytes& b) {
            raw.push_back(b);
            if (auto p = parsePacket(b)) {
                sent.push_back(*p);
            }
        };
    }

    void feed(const std::vector<WChunk>& chunks, std::optional<uint32_t> withTag = {})
    {
        a.receive(makePacket(5001, 5000, withTag.value_or(tag), chunks));
    }

    // What it sent since the last call
    std::vector<WPacket> take()
    {
        std::vector<WPacket> r(sent.begin() + static_cast<long>(seen), sent.end());
        seen = sent.size();
        return r;
    }

    // The first chunk of this type in what it sent since the last call
    std::optional<WChunk> takeChunk(uint8_t type)
    {
        std::optional<WChunk> r;
        for (const auto& p : take()) {
            if (const auto* c = p.find(type); c != nullptr && !r) {
                r = *c;
            }
        }
        return r;
    }

    void start()
    {
        a.start();
        const auto init = takeChunk(tInit);
        if (!init || init->body.size() < 16) {
            ctx.check(false, ctx.property(), "no-init", "start() sent no INIT");
            ctx.abandon();
        }
        tag = rd32(init->body, 0);
        tsn0 = rd32(init->body, 12);
    }

    void initAck(uint32_t rwnd)
    {
        feed({ { tInitAck,
                 0,
                 W().u32(kPeerTag).u32(rwnd).u16(100).u16(100).u32(peerTsn).u16(7).u16(12).bytes({ 1, 2, 3, 4, 5, 6, 7, 8 }).b } });
        const auto echo = takeChunk(tCookieEcho);
        if (!echo || echo->body != Bytes{ 1, 2, 3, 4, 5, 6, 7, 8 }) {
            ctx.check(false, ctx.property(), "no-cookie-echo", "the session did not return the cookie");
            ctx.abandon();
        }
    }

    void cookieAck()
    {
        feed({ { tCookieAck, 0, {} } });
    }

    void data(uint16_t stream, uint16_t ssn, uint8_t flags, uint32_t ppid, const Bytes& payload)
    {
        feed({ dataChunk(peerTsn++, stream, ssn, flags, ppid, payload) });
    }

    void sackAll(uint32_t rwnd)
    {
        feed({ sackChunk(tsn0 + a.monitor.newChunks - 1, rwnd) });
    }

    // Established, with the peer's channel open on stream 1
    void open(const std::string& label, uint8_t type = 0, uint16_t stream = 1)
    {
        data(stream, 0, fB | fE, pDcep, dcepOpen(label, type));
        if (a.events.empty() || a.events.back().kind != 'O' || a.events.back().label != label) {
            ctx.check(false, ctx.property(), "not-opened", "the peer's OPEN did not open the channel");
            ctx.abandon();
        }
    }
};

// ----- D04: flow control

// Messages of every size, on a channel of every kind, with a window that lets them through or not
void runAllSizes(Ctx& ctx)
{
    begin(ctx, kRandoms);
    const bool own = ctx.flip("own channel");
    const bool unordered = !own && ctx.flip("unordered");
    const bool text = ctx.flip("text");
    static const uint32_t windows[] = { 131072, 1500 };
    const auto window = windows[ctx.choose(2, "window")];
    const size_t step = ctx.thorough() ? 1200 : 600;
    const size_t from = step * static_cast<size_t>(ctx.choose(ctx.thorough() ? 10 : 8, "from"));
    Direct d(ctx, own ? std::vector<std::string>{ "x" } : std::vector<std::string>{}, 77);
    d.start();
    d.initAck(window);
    d.cookieAck();
    if (own) {
        d.sackAll(window);
        uint16_t stream = 0;
        for (const auto& o : d.a.monitor.opened) {
            stream = o.first;
        }
        d.data(stream, 0, fB | fE, pDcep, { 2 });
    } else {
        d.open("x", unordered ? 0x80 : 0);
    }
    d.sackAll(window);
    std::vector<Message> accepted;
    size_t n = 0;
    const auto catchUp = [&] {
        for (int i = 0; i < 50 && d.a.monitor.all.size() < accepted.size(); i += 1) {
            d.sackAll(window);
        }
        d.sackAll(window);
        while (n < d.a.monitor.all.size() && n < accepted.size()) {
            ctx.check(d.a.monitor.all[n] == accepted[n], "D01", "message-changed", "a message of %zu bytes is sent as one of %zu", accepted[n].data.size(),
                      d.a.monitor.all[n].data.size());
            n += 1;
        }
        ctx.check(n == accepted.size(), "D01", "message-not-ended", "the message of %zu bytes is not sent to its end", n < accepted.size() ? accepted[n].data.size() : 0);
    };
    for (size_t size = from; size < from + step; size += 1) {
        Message m;
        m.text = text;
        m.data = mcu::pattern(ctx.seed(), size, size);
        accepted.push_back(m);
        d.a.send("x", m);
        if (size % 3 == 2) {
            catchUp();
        }
        ctx.step();
    }
    catchUp();
    ctx.outcome(d.a.monitor.newChunks);
    ctx.state(mc::mix(d.a.monitor.newChunks, from));
}

void runFlow(Ctx& ctx)
{
    begin(ctx, kRandoms);
    static const uint32_t windows[] = { 131072, 1500, 0 };
    uint32_t window = windows[ctx.choose(3, "initial window")];
    Direct d(ctx, ctx.flip("own channels") ? std::vector<std::string>{ "own", "other" } : std::vector<std::string>{}, 77);

    // Outstanding chunks, as the peer knows
    std::map<uint32_t, size_t> flight; // by distance from the first
    size_t flying = 0;
    uint32_t seen = 0; // new chunks looked at
    uint32_t cum = 0;  // the next distance to acknowledge
    size_t looked = 0;
    bool armed = false;

    const auto look = [&] {
        for (; looked < d.sent.size(); looked += 1) {
            for (const auto& c : d.sent[looked].chunks) {
                if (c.type != tData || c.body.size() < 12) {
                    continue;
                }
                const auto dist = rd32(c.body, 0) - d.tsn0;
                const auto size = c.body.size() - 12;
                if (dist != seen) {
                    // A retransmission
                    ctx.check(dist < seen, "D04", "sequence", "chunk %u was sent, expected %u", dist, seen);
                    continue;
                }
                if (armed) {
                    ctx.check(flight.empty() || flying + size <= window,
                              "D04",
                              "beyond-window",
                              "a chunk of %zu bytes was sent while %zu bytes were in flight and the window was %u",
                              size,
                              flying,
                              window);
                }
                flight[dist] = size;
                flying += size;
                seen += 1;
            }
        }
    };
    const auto ack = [&](uint32_t upTo, uint32_t w, const std::vector<std::pair<uint16_t, uint16_t>>& gaps) {
        // upTo: the first distance which is not acknowledged
        for (auto it = flight.begin(); it != flight.end();) {
            bool gone = it->first < upTo;
            for (const auto& g : gaps) {
                const auto o = it->first - upTo + 1;
                gone = gone || (it->first >= upTo && o >= g.first && o <= g.second);
            }
            if (gone) {
                flying -= it->second;
                it = flight.erase(it);
            } else {
                ++it;
            }
        }
        cum = upTo;
        window = w;
        ctx.log("acknowledge up to %u of %u, %zu gap blocks, window %u", upTo, seen, gaps.size(), w);
        d.feed({ sackChunk(d.tsn0 + upTo - 1, w, gaps) });
        look();
    };

    d.start();
    armed = true;
    d.initAck(window);
    d.cookieAck();
    look();
    d.open("x");
    look();

    std::vector<Message> accepted;
    const auto send = [&](size_t size, bool text) {
        Message m;
        m.text = text;
        m.data = mcu::pattern(ctx.seed(), 500 + accepted.size(), size);
        accepted.push_back(m);
        ctx.log("send %zu bytes", size);
        d.a.send("x", m);
        look();
    };

    const int depth = ctx.thorough() ? 7 : 5;
    for (int i = 0; i < depth; i += 1) {
        switch (ctx.choose(11, "operation")) {
        case 0:
            send(100, true);
            break;
        case 1:
            send(1100, false);
            break;
        case 2:
            send(3000, false);
            break;
        case 3:
            send(0, true);
            break;
        case 4:
            ack(seen, 131072, {});
            break;
        case 5:
            ack(seen, 0, {});
            break;
        case 6:
            ack(seen, 1200, {});
            break;
        case 7: // The oldest one only
            ack(std::min(cum + 1, seen), 2500, {});
            break;
        case 8: // Only the window changed
            ack(cum, static_cast<uint32_t>(flying) + 1200, {});
            break;
        case 9: // All but the oldest one
            if (seen > cum + 1) {
                ack(cum, 2500, { { 2, static_cast<uint16_t>(seen - cum) } });
            }
            break;
        default: // The retransmission timer
            env::advanceMs(300);
            d.a.runTimers();
            look();
            break;
        }
    }

    // The peer recovers: it acknowledges what it has, and keeps announcing its window
    const uint32_t last = ctx.flip("recovered window") ? 131072 : 1200;
    int idle = 0;
    const auto done = [&] {
        return d.a.monitor.all.size() == accepted.size() && flight.empty();
    };
    ack(cum, last, {});
    for (int round = 0; round < 400 && !done() && idle < 5; round += 1) {
        const auto before = seen;
        const auto left = flight.size();
        if (flight.empty()) {
            env::advanceMs(1000);
            d.a.runTimers();
            look();
        }
        ack(seen, last, {});
        idle = (seen == before && left == flight.size()) ? idle + 1 : 0;
    }
    ctx.check(done(),
              "D04",
              "stalled",
              "%zu of %zu messages were sent, with nothing in flight and a window of %u",
              d.a.monitor.all.size(),
              accepted.size(),
              last);
    for (size_t i = 0; i < d.a.monitor.all.size() && i < accepted.size(); i += 1) {
        ctx.check(d.a.monitor.all[i] == accepted[i], "D04", "send-order", "message %zu was sent out of order or changed", i);
    }
    ctx.outcome(mc::mix(seen, d.sent.size()));
}

// Acknowledgements with gap blocks, after the numbers went on for more than 65536
void runFarGap(Ctx& ctx)
{
    begin(ctx, { 0xFFFFFF01u, 0xFFFF8000u });
    Direct d(ctx, {}, 77);
    d.start();
    d.initAck(1'000'000);
    d.cookieAck();
    d.open("x");
    const int extra = ctx.choose(3, "messages past 65536");
    const uint32_t n = 65536 + 2 + static_cast<uint32_t>(extra);
    for (uint32_t i = 0; i < n; i += 1) {
        Message m;
        m.text = true;
        m.data = { static_cast<uint8_t>(i), static_cast<uint8_t>(i >> 8) };
        d.a.send("x", m);
    }
    // Everything was sent: the ACK and n messages. The peer got the second to the fifth
    const auto total = d.a.monitor.newChunks;
    ctx.check(total == n + 1, "D04", "not-sent", "%u of %u chunks were sent", total, n + 1);
    d.feed({ sackChunk(d.tsn0 - 1, 1'000'000, { { 2, 5 } }) });
    // Then the oldest. Whatever is still in flight has to be sent again until it is acknowledged
    d.feed({ sackChunk(d.tsn0 + total - 1 - 3, 1'000'000) });
    d.seen = d.sent.size();
    bool resent[3] = {};
    for (int k = 0; k < 3; k += 1) {
        env::advanceMs(61'000);
        d.a.runTimers();
        for (const auto& p : d.take()) {
            for (const auto& c : p.chunks) {
                if (c.type == tData) {
                    const auto dist = rd32(c.body, 0) - d.tsn0;
                    if (dist + 3 >= total && dist < total) {
                        resent[dist + 3 - total] = true;
                        d.feed({ sackChunk(rd32(c.body, 0), 1'000'000) });
                    }
                }
            }
        }
    }
    for (int k = 0; k < 3; k += 1) {
        ctx.check(resent[k], "D04", "not-retransmitted", "chunk %u, which was not acknowledged, was not sent again", total - 3 + static_cast<uint32_t>(k));
    }
}

// ----- D03: reassembly

void runReassembly(Ctx& ctx)
{
    begin(ctx, kRandoms);
    static const uint32_t tsns[] = { 100, 0xFFFFFFFDu };
    Direct d(ctx, {}, tsns[ctx.choose(2, "first TSN")]);
    d.start();
    d.initAck(100000);
    d.cookieAck();
    const auto base = d.peerTsn;
    const int kind = ctx.choose(3, "channels"); // ordered, unordered, one of each
    const bool openToo = ctx.flip("OPEN in any order too");
    const bool constSsn = kind != 0 && ctx.flip("unordered messages have number 0");
    const bool bundle = ctx.flip("two chunks in a packet");

    struct Plan {
        int channel;
        Message m;
    };
    std::vector<WChunk> chunks;
    std::vector<Plan> plan;
    uint32_t tsn = base;
    const int channels = kind == 2 ? 2 : 1;
    const auto unordered = [&](int c) { return kind == 1 || (kind == 2 && c == 1); };
    const auto label = [](int c) { return std::string(1, static_cast<char>('p' + c)); };
    const auto stream = [](int c) { return static_cast<uint16_t>(1 + 2 * c); };
    std::vector<WChunk> opens;
    for (int c = 0; c < channels; c += 1) {
        opens.push_back(dataChunk(tsn++, stream(c), 0, fB | fE, pDcep, dcepOpen(label(c), unordered(c) ? 0x80 : 0)));
    }
    uint16_t ssn[2] = { 1, 1 };
    const int budget = ctx.thorough() ? 6 : 5;
    int used = openToo ? channels : 0;
    const int messages = 1 + ctx.choose(3, "messages");
    for (int k = 0; k < messages && used < budget; k += 1) {
        const int room = std::min(3, budget - used);
        const int frags = 1 + ctx.choose(room, "fragments");
        used += frags;
        const int c = k % channels;
        Plan p;
        p.channel = c;
        p.m.text = k % 2 == 0;
        const bool empty = frags == 1 && k == 1;
        const uint32_t ppid = empty ? (p.m.text ? pTextEmpty : pBinaryEmpty) : (p.m.text ? pText : pBinary);
        const uint16_t s = unordered(c) && constSsn ? 0 : ssn[c]++;
        for (int f = 0; f < frags; f += 1) {
            const auto part = empty ? Bytes(1, 0) : mcu::pattern(ctx.seed(), static_cast<uint64_t>(k * 10 + f), static_cast<size_t>(3 + f + k));
            uint8_t flags = unordered(c) ? fU : 0;
            flags |= f == 0 ? fB : 0;
            flags |= f == frags - 1 ? fE : 0;
            chunks.push_back(dataChunk(tsn++, stream(c), s, flags, ppid, part));
            if (!empty) {
                p.m.data.insert(p.m.data.end(), part.begin(), part.end());
            }
        }
        plan.push_back(p);
    }
    if (openToo) {
        chunks.insert(chunks.begin(), opens.begin(), opens.end());
    } else {
        d.feed(opens);
    }
    const size_t total = chunks.size();

    std::vector<bool> used2(plan.size(), false);
    std::vector<size_t> nextOrdered(2, 0);
    size_t events = 0;
    size_t opened = 0;
    const auto watch = [&] {
        for (; events < d.a.events.size(); events += 1) {
            const auto& e = d.a.events[events];
            if (e.kind == 'O') {
                opened += 1;
                continue;
            }
            if (e.kind == 'C') {
                ctx.check(false, "D03", "closed", "the channel was closed");
                continue;
            }
            Message m;
            m.text = e.kind == 'T';
            m.data = e.data;
            const int c = e.label == label(0) ? 0 : 1;
            bool found = false;
            for (size_t k = 0; k < plan.size(); k += 1) {
                if (plan[k].channel != c || used2[k]) {
                    continue;
                }
                if (plan[k].m == m) {
                    used2[k] = true;
                    found = true;
                    break;
                }
                if (!unordered(c)) {
                    break;
                }
            }
            ctx.check(found, "D03", "wrong-message", "delivered %s of %zu bytes: %s", m.text ? "text" : "binary", m.data.size(), mcu::hex(m.data).c_str());
        }
    };
    watch();

    // Every order
    std::vector<size_t> left(total);
    for (size_t i = 0; i < total; i += 1) {
        left[i] = i;
    }
    std::vector<WChunk> packet;
    std::vector<WChunk> sentBefore;
    while (!left.empty()) {
        const int k = ctx.choose(static_cast<int>(left.size()), "next");
        const auto& c = chunks[left[static_cast<size_t>(k)]];
        packet.push_back(c);
        ctx.log("chunk %u", rd32(c.body, 0) - base);
        left.erase(left.begin() + k);
        if (!bundle || packet.size() == 2 || left.empty()) {
            d.feed(packet);
            watch();
            sentBefore.insert(sentBefore.end(), packet.begin(), packet.end());
            packet.clear();
            if (ctx.budget() > 0) {
                const int again = ctx.deviate(static_cast<int>(sentBefore.size()) + 1, "again");
                if (again > 0) {
                    ctx.log("chunk %u again", rd32(sentBefore[static_cast<size_t>(again) - 1].body, 0) - base);
                    d.feed({ sentBefore[static_cast<size_t>(again) - 1] });
                    watch();
                }
            }
        }
    }
    // Late copies of everything
    for (const auto& c : chunks) {
        d.feed({ c });
        watch();
    }
    ctx.check(opened == static_cast<size_t>(channels), "D03", "opened", "%zu channels were opened", opened);
    for (size_t k = 0; k < plan.size(); k += 1) {
        ctx.check(used2[k], "D03", "not-delivered", "message %zu of %zu bytes was not delivered", k, plan[k].m.data.size());
    }
    // And everything was acknowledged
    std::optional<WChunk> sack;
    for (const auto& p : d.take()) {
        if (const auto* c = p.find(tSack)) {
            sack = *c;
        }
    }
    ctx.check(sack && sack->body.size() >= 12 && rd32(sack->body, 0) == tsn - 1 && rd16(sack->body, 8) == 0,
              "D03",
              "not-acknowledged",
              "everything was received, but not all of it acknowledged");
}

// Stream sequence numbers over their wrap
void runSsnWrap(Ctx& ctx)
{
    begin(ctx, kRandoms);
    Direct d(ctx, {}, 0xFFFFFF00u);
    d.start();
    d.initAck(100000);
    d.cookieAck();
    d.open("x");
    const uint32_t start = 65534;
    for (uint32_t i = 1; i < start; i += 1) {
        d.feed({ dataChunk(d.peerTsn++, 1, static_cast<uint16_t>(i), fB | fE, pText, { 'm' }) });
        if (d.sent.size() > 1000) {
            d.sent.clear();
            d.raw.clear();
            d.seen = 0;
        }
    }
    ctx.check(d.a.events.size() == start, "D03", "not-delivered", "%zu of %u messages were delivered", d.a.events.size(), start);
    std::vector<WChunk> chunks;
    for (int i = 0; i < 4; i += 1) {
        chunks.push_back(dataChunk(
            d.peerTsn++, 1, static_cast<uint16_t>(start + static_cast<uint32_t>(i)), fB | fE, pText, { static_cast<uint8_t>('a' + i) }));
    }
    std::vector<size_t> left = { 0, 1, 2, 3 };
    while (!left.empty()) {
        const int k = ctx.choose(static_cast<int>(left.size()), "next");
        d.feed({ chunks[left[static_cast<size_t>(k)]] });
        left.erase(left.begin() + k);
    }
    std::string got;
    for (size_t i = start; i < d.a.events.size(); i += 1) {
        got.append(d.a.events[i].data.begin(), d.a.events[i].data.end());
    }
    ctx.check(got == "abcd", "D03", "wrap", "delivered '%s' instead of 'abcd' over the wrap of the sequence", got.c_str());
}

// Many gaps, and numbers far ahead
void runManyGaps(Ctx& ctx)
{
    begin(ctx, kRandoms);
    Direct d(ctx, {}, 0xFFFFFE00u);
    d.start();
    d.initAck(100000);
    d.cookieAck();
    d.open("x");
    const auto base = d.peerTsn;
    static const uint32_t counts[] = { 300, 1030, 2100, 66000 };
    const auto n = counts[ctx.choose(4, "chunks")];
    const int shape = ctx.choose(3, "shape"); // every second one; all but the first; from the last to the first
    const auto chunk = [&](uint32_t i) {
        return dataChunk(base + i, 1, static_cast<uint16_t>(i + 1), fB | fE, pBinary, { static_cast<uint8_t>(i), static_cast<uint8_t>(i >> 8), static_cast<uint8_t>(i >> 16) });
    };
    std::set<uint32_t> acked; // what the peer believes is acknowledged
    std::set<uint32_t> given;
    uint32_t cum = 0;
    const auto look = [&] {
        for (const auto& p : d.take()) {
            for (const auto& c : p.chunks) {
                if (c.type != tSack || c.body.size() < 12) {
                    continue;
                }
                checkGaps(ctx, c.body);
                const auto upTo = rd32(c.body, 0) - base + 1;
                while (cum < upTo && cum < 200000) {
                    acked.insert(cum++);
                }
                for (size_t g = 0; g < rd16(c.body, 8) && 16 + g * 4 <= c.body.size(); g += 1) {
                    for (uint32_t o = rd16(c.body, 12 + g * 4); o <= rd16(c.body, 14 + g * 4); o += 1) {
                        acked.insert(upTo + o - 1);
                    }
                }
            }
        }
        d.sent.clear();
        d.raw.clear();
        d.seen = 0;
    };
    const auto feed = [&](uint32_t i) {
        given.insert(i);
        d.feed({ chunk(i) });
        look();
    };
    if (n > 3000 && shape != 1) {
        return;
    }
    if (shape == 0) {
        for (uint32_t i = 1; i < n; i += 2) {
            feed(i);
        }
    } else if (shape == 1) {
        for (uint32_t i = n > 3000 ? n - 600 : 1; i < n; i += 1) {
            feed(i);
        }
    } else {
        for (uint32_t i = n - 1; i > 0; i -= 1) {
            feed(i);
        }
    }
    for (const auto a : acked) {
        if (given.count(a) == 0) {
            ctx.check(false, "D03", "acknowledged-unseen", "chunk %u was acknowledged but never sent", a);
            break;
        }
    }
    // Now all that is not acknowledged, in order, several times as the peer would
    for (int round = 0; round < 8; round += 1) {
        for (uint32_t i = 0; i < n; i += 1) {
            if (acked.count(i) == 0) {
                feed(i);
            }
        }
    }
    size_t k = 0;
    for (const auto& e : d.a.events) {
        if (e.kind == 'B') {
            const Bytes want = { static_cast<uint8_t>(k), static_cast<uint8_t>(k >> 8), static_cast<uint8_t>(k >> 16) };
            ctx.check(e.data == want, "D03", "wrong-message", "message %zu is wrong", k);
            k += 1;
        }
    }
    ctx.check(k == n, "D03", "not-delivered", "%zu of %u messages were delivered", k, n);
}

// The receive buffer alone: complete messages in any order, fragments of each in order
void runBuffer(Ctx& ctx)
{
    begin(ctx, kRandoms);
    const bool unordered = ctx.flip("unordered");
    static const uint16_t firsts[] = { 0, 65534 };
    const auto first = firsts[ctx.choose(2, "first")];
    srtc::sctp::DataChannelReceiveBuffer buf;
    for (uint32_t i = 0; i < first; i += 1) {
        buf.consumeSsn(static_cast<uint16_t>(i));
    }
    const int n = 1 + ctx.choose(4, "messages");
    std::vector<int> frags, next(static_cast<size_t>(n), 0);
    int left = 0;
    for (int i = 0; i < n; i += 1) {
        frags.push_back(1 + ctx.choose(2, "fragments"));
        left += frags.back();
    }
    std::vector<int> got;
    const auto content = [&](int m, int f) { return Bytes{ static_cast<uint8_t>(10 * m + f), static_cast<uint8_t>(m) }; };
    while (left > 0) {
        std::vector<int> can;
        for (int i = 0; i < n; i += 1) {
            if (next[static_cast<size_t>(i)] < frags[static_cast<size_t>(i)]) {
                can.push_back(i);
            }
        }
        const int m = can[static_cast<size_t>(ctx.choose(static_cast<int>(can.size()), "next"))];
        const int f = next[static_cast<size_t>(m)]++;
        left -= 1;
        uint8_t flags = f == 0 ? fB : 0;
        flags |= f + 1 == frags[static_cast<size_t>(m)] ? fE : 0;
        const auto data = content(m, f);
        const auto out = buf.receive(
            static_cast<uint16_t>(first + m), flags, unordered, m % 2 ? pText : pBinary, data.data(), data.size());
        ctx.step();
        for (const auto& o : out) {
            const auto b = mcu::toBytes(o.data);
            const int id = b.empty() ? -1 : b.back();
            Bytes want;
            for (int k = 0; id >= 0 && id < n && k < frags[static_cast<size_t>(id)]; k += 1) {
                const auto part = content(id, k);
                want.insert(want.end(), part.begin(), part.end());
            }
            ctx.check(b == want && o.ppid == (id % 2 ? pText : pBinary), "D03", "buffer-content", "message %d has content %s", id, mcu::hex(b).c_str());
            got.push_back(id);
        }
    }
    std::vector<int> want;
    for (int i = 0; i < n; i += 1) {
        want.push_back(i);
    }
    if (unordered) {
        std::sort(got.begin(), got.end());
    }
    ctx.check(got == want, "D03", "buffer-order", "%zu messages were delivered instead of %d, or out of order", got.size(), n);
}

// ----- D05: whatever is received

enum DirectState {
    kNew,
    kCookieWait,
    kCookieEchoed,
    kEstablished,
    kBusy, // Data in flight and waiting for the window, received out of order and in part
    kStates
};

void bring(Direct& d, int state)
{
    if (state >= kCookieWait) {
        d.start();
    }
    if (state >= kCookieEchoed) {
        d.initAck(1500);
    }
    if (state >= kEstablished) {
        d.cookieAck();
        d.open("x");
    }
    if (state == kBusy) {
        for (int i = 0; i < 4; i += 1) {
            Message m;
            m.text = false;
            m.data = mcu::pattern(1, static_cast<uint64_t>(i), 1000);
            d.a.send("x", m);
        }
        d.data(1, 1, fB, pBinary, { 1, 2, 3 });
        d.peerTsn += 1; // lost
        d.data(1, 2, fB | fE, pText, { 4 });
    }
    d.take();
}

// The packets a peer may send
std::vector<std::vector<WChunk>> samplePackets(const Direct& d)
{
    std::vector<std::vector<WChunk>> r;
    const auto t = d.peerTsn;
    r.push_back({ { tInit, 0, W().u32(kPeerTag).u32(1500).u16(10).u16(10).u32(t).u16(0xC000).u16(4).b } });
    r.push_back({ { tInitAck,
                    0,
                    W().u32(kPeerTag).u32(1500).u16(10).u16(10).u32(t).u16(0xC000).u16(4).u16(7).u16(10).bytes({ 1, 2, 3, 4, 5, 6, 0, 0 }).b } });
    r.push_back({ { tCookieEcho, 0, mcu::pattern(3, 3, 56) } });
    r.push_back({ { tCookieAck, 0, {} } });
    r.push_back({ dataChunk(t, 1, 1, fB | fE, pText, { 'h', 'i' }) });
    r.push_back({ dataChunk(t, 1, 1, fB | fE, pBinaryEmpty, { 0 }) });
    r.push_back({ dataChunk(t + 1, 1, 1, fB, pBinary, { 1, 2, 3, 4, 5 }), dataChunk(t, 1, 1, fE, pBinary, { 1 }) });
    r.push_back({ dataChunk(t, 5, 0, fB | fE, pDcep, dcepOpen("lbl")) });
    r.push_back({ dataChunk(t, 0, 0, fB | fE, pDcep, { 2 }) });
    r.push_back({ sackChunk(d.tsn0, 5000, { { 2, 2 }, { 4, 5 } }, { 1 }) });
    r.push_back({ { tHeartbeat, 0, W().u16(1).u16(8).u32(0x01020304).b } });
    r.push_back({ { tReconfig, 0, W().u16(13).u16(20).u32(1).u32(2).u32(3).u16(1).u16(3).b } });
    r.push_back({ { tForward, 0, W().u32(t + 1).u16(1).u16(1).b } });
    r.push_back({ { tAbort, 0, W().u16(12).u16(4).b } });
    return r;
}

// Goes on after a strange packet: timers, acknowledgements, messages
void goOn(Direct& d)
{
    env::advanceMs(300);
    d.a.runTimers();
    if (d.tag != 0) {
        d.feed({ dataChunk(d.peerTsn, 1, 9, fB | fE, pText, { 'z' }) });
        d.feed({ sackChunk(d.tsn0 + 1, 9000, { { 2, 3 } }) });
    }
    if (d.a.canSend("x")) {
        Message m;
        m.text = true;
        m.data = { 'q' };
        d.a.send("x", m);
    }
    env::advanceMs(300);
    d.a.runTimers();
}

void inject(Direct& d, const Bytes& b)
{
    mcu::Exact exact(b);
    const srtc::ByteBuffer buf(exact.data(), b.size());
    d.ctx.step();
    d.a.session->onReceiveData(buf);
}

void runMutations(Ctx& ctx)
{
    begin(ctx, kRandoms);
    Direct d(ctx, { "own" }, 500);
    bring(d, ctx.choose(kStates, "state"));
    const auto samples = samplePackets(d);
    const auto& sample = samples[static_cast<size_t>(ctx.choose(static_cast<int>(samples.size()), "packet"))];
    auto b = makePacket(5001, 5000, sample[0].type == tInit ? 0 : d.tag, sample);
    const int kind = ctx.choose(4, "change");
    if (kind == 0) {
        // Cut, the chunk's length as it was
        const auto n = ctx.choose(static_cast<int>(b.size()) + 1, "length");
        b.resize(static_cast<size_t>(n));
    } else if (kind == 1) {
        // Cut, with the length corrected
        const auto n = 12 + ctx.choose(static_cast<int>(b.size()) - 11, "length");
        b.resize(static_cast<size_t>(n));
        if (b.size() >= 16) {
            b[14] = static_cast<uint8_t>((b.size() - 12) >> 8);
            b[15] = static_cast<uint8_t>(b.size() - 12);
        }
    } else if (kind == 2) {
        // Every 16 bit field
        const auto n = 12 + ctx.choose(static_cast<int>(b.size()) - 13, "field");
        static const uint16_t values[] = { 0, 1, 2, 3, 4, 5, 8, 11, 12, 15, 16, 0x7FFF, 0x8000, 0xFFF0, 0xFFFF };
        const auto v = values[ctx.choose(15, "value")];
        b[static_cast<size_t>(n)] = static_cast<uint8_t>(v >> 8);
        b[static_cast<size_t>(n) + 1] = static_cast<uint8_t>(v);
    } else {
        // Every byte
        const auto n = 12 + ctx.choose(static_cast<int>(b.size()) - 12, "byte");
        static const uint8_t values[] = { 0, 1, 2, 3, 4, 7, 0x0d, 0x32, 0x80, 0xFF };
        b[static_cast<size_t>(n)] = values[ctx.choose(10, "value")];
    }
    fixCrc(b);
    inject(d, b);
    goOn(d);
}

void runTypes(Ctx& ctx)
{
    begin(ctx, kRandoms);
    Direct d(ctx, { "own" }, 500);
    bring(d, ctx.choose(kStates, "state"));
    static const uint8_t types[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 0x82, 0xC0, 0xFF };
    const auto type = types[ctx.choose(16, "type")];
    const int max = ctx.thorough() ? 70 : 34;
    const int size = ctx.choose(max, "size");
    static const int lengths[] = { 0, -1, 1, -4, 4, 0x7FFF, 1000 };
    const int len = ctx.choose(7, "length");
    static const uint8_t fills[] = { 0, 0xFF, 1, 3 };
    const auto fill = fills[ctx.choose(4, "content")];
    const int length = 4 + size + lengths[len];
    W w;
    w.u16(5001).u16(5000).u32(type == tInit ? 0 : d.tag).u32(0);
    w.u8(type).u8(3).u16(static_cast<uint32_t>(length)).bytes(Bytes(static_cast<size_t>(size), fill));
    // The numbers as expected, so that the rest is looked at
    if (type == tData && size >= 12) {
        const W t = W().u32(d.peerTsn);
        std::copy(t.b.begin(), t.b.end(), w.b.begin() + 16);
        w.b[20] = 0;
        w.b[21] = 1;
        w.b[26] = 0;
        w.b[27] = fill == 3 ? 50 : 51;
        w.b[24] = w.b[25] = 0;
    }
    fixCrc(w.b);
    inject(d, w.b);
    goOn(d);
}

// DCEP messages and parameters, byte by byte
void runStrings(Ctx& ctx)
{
    begin(ctx, kRandoms);
    Direct d(ctx, { "own" }, 500);
    bring(d, kEstablished);
    static const uint8_t values[] = { 0, 1, 2, 3, 4, 12, 0x0d, 0x80, 0xFF };
    const int kind = ctx.choose(4, "chunk");
    const int max = ctx.thorough() ? 6 : 5;
    const int n = ctx.choose(max + 1, "length");
    Bytes s;
    for (int i = 0; i < n; i += 1) {
        s.push_back(values[ctx.choose(9, "byte")]);
    }
    WChunk c;
    if (kind == 0) {
        c = dataChunk(d.peerTsn, 7, 0, fB | fE, pDcep, s);
    } else if (kind == 1) {
        // The lengths of an OPEN
        c = dataChunk(d.peerTsn, 7, 0, fB | fE, pDcep, W().u8(3).u8(0).u16(0).u32(0).bytes(s).b);
    } else if (kind == 2) {
        c = { tReconfig, 0, W().u16(13).bytes(s).b };
    } else {
        c = { tSack, 0, W().u32(d.tsn0).u32(9000).bytes(s).b };
    }
    auto b = makePacket(5001, 5000, d.tag, { c });
    inject(d, b);
    goOn(d);
}

// A wrong checksum or tag: no effect
void runWrong(Ctx& ctx)
{
    const int state = ctx.choose(kStates, "state");
    const int which = ctx.choose(14, "packet");
    const int kind = ctx.choose(4, "wrong");
    int bit = 0;
    uint32_t tag = 0;
    std::string what[2];
    for (int run = 0; run < 2; run += 1) {
        begin(ctx, kRandoms);
        Direct d(ctx, { "own" }, 500);
        bring(d, state);
        const auto samples = samplePackets(d);
        const auto& sample = samples[static_cast<size_t>(which)];
        const bool init = sample[0].type == tInit;
        if (run == 1) {
            auto b = makePacket(5001, 5000, init ? 0 : d.tag, sample);
            if (kind == 0) {
                bit = ctx.choose(static_cast<int>(b.size()) * 8, "bit");
                b[static_cast<size_t>(bit / 8)] ^= static_cast<uint8_t>(1 << (bit % 8));
            } else if (kind == 1) {
                const uint32_t tags[] = { init ? d.tag : 0, d.tag ^ 1, d.tag ^ 0x80000000u, kPeerTag, init ? 1 : d.tag + 0x10000 };
                tag = tags[ctx.choose(5, "tag")];
                if (tag == (init ? 0 : d.tag)) {
                    return;
                }
                b = makePacket(5001, 5000, tag, sample);
            } else if (kind == 2) {
                // The rest after an INIT, which has no tag
                if (init || d.tag == 0) {
                    return;
                }
                auto chunks = sample;
                chunks.insert(chunks.begin(), samples[0][0]);
                b = makePacket(5001, 5000, 0, chunks);
            } else {
                // Cut with the checksum of the whole
                if (b.size() < 17) {
                    return;
                }
                b.resize(b.size() - 4);
            }
            const auto events = d.a.events.size();
            inject(d, b);
            size_t others = 0;
            for (const auto& p : d.take()) {
                // An INIT may be answered
                others += (kind == 2 && p.find(tInitAck) != nullptr) ? 0 : 1;
            }
            ctx.check(others == 0 && d.a.events.size() == events, "D05", "wrong-accepted", "a packet with a wrong %s was acted upon",
                      kind == 1 || kind == 2 ? "tag" : "checksum");
        }
        // The rest happens as if it had not been there
        const auto rawBefore = d.raw.size();
        goOn(d);
        for (size_t i = rawBefore; i < d.raw.size(); i += 1) {
            what[run] += mcu::hex(d.raw[i], 2000) + "\n";
        }
        for (const auto& e : d.a.events) {
            what[run] += e.kind + e.label + mcu::hex(e.data) + "\n";
        }
    }
    ctx.check(what[0] == what[1], "D05", "wrong-had-effect", "after a packet with a wrong checksum or tag, the session behaves differently");
}

// ----- D06: the peer's requests

void runRequests(Ctx& ctx)
{
    begin(ctx, kRandoms);
    Direct d(ctx, { "own" }, 500);
    const int state = ctx.choose(kStates, "state");
    bring(d, state);
    const int what = ctx.choose(4, "request");
    if (what == 0) {
        // INIT, then its cookie
        const uint32_t other = ctx.flip("another peer") ? 0x77777777u : kPeerTag;
        const auto init = WChunk{ tInit, 0, W().u32(other).u32(1500).u16(10).u16(10).u32(500).b };
        d.feed({ init }, 0);
        std::optional<WPacket> ack;
        size_t acks = 0;
        for (const auto& p : d.take()) {
            if (p.find(tInitAck) != nullptr) {
                ack = p;
                acks += 1;
            }
        }
        ctx.check(acks == 1, "D06", "init-not-answered", "an INIT was answered %zu times", acks);
        if (!ack) {
            return;
        }
        ctx.check(ack->tag == other, "D06", "init-ack-tag", "INIT ACK with tag %08x", ack->tag);
        const auto& body = ack->find(tInitAck)->body;
        ctx.check(body.size() >= 16 && rd32(body, 0) != 0 && rd16(body, 8) != 0 && rd16(body, 10) != 0, "D06", "init-ack", "bad INIT ACK");
        const auto cookie = findParam(body, 16, 7);
        ctx.check(cookie && !cookie->empty(), "D06", "no-cookie", "INIT ACK without a cookie");
        if (!cookie || cookie->empty()) {
            return;
        }
        const auto tag = rd32(body, 0);
        auto echoed = *cookie;
        const int forge = ctx.choose(4, "cookie");
        bool good = true;
        if (forge == 1) {
            const int bit = ctx.choose(static_cast<int>(echoed.size()) * 8, "bit");
            echoed[static_cast<size_t>(bit / 8)] ^= static_cast<uint8_t>(1 << (bit % 8));
            good = false;
        } else if (forge == 2) {
            echoed.resize(static_cast<size_t>(ctx.choose(static_cast<int>(echoed.size()), "size")));
            good = false;
        } else if (forge == 3) {
            // RFC 4960 5.1.3: stale cookies are not accepted. It lives for a minute
            const bool late = ctx.flip("late");
            env::advanceMs(late ? 62'000 : 58'000);
            good = !late;
        }
        if (state >= kEstablished && other != kPeerTag) {
            good = false; // Of another association
        }
        d.take();
        d.feed({ { tCookieEcho, 0, echoed } }, tag);
        size_t n = 0;
        bool rightTag = true;
        for (const auto& p : d.take()) {
            if (p.find(tCookieAck) != nullptr) {
                n += 1;
                rightTag = rightTag && p.tag == other;
            }
        }
        ctx.check(n == (good ? 1u : 0u), "D06", good ? "cookie-not-accepted" : "cookie-accepted", "a %s cookie was acknowledged %zu times", good ? "good" : "bad", n);
        ctx.check(rightTag, "D06", "cookie-ack-tag", "COOKIE ACK with a wrong tag");
        if (good) {
            // And again, when the acknowledgement is lost
            d.feed({ { tCookieEcho, 0, echoed } }, tag);
            n = 0;
            for (const auto& p : d.take()) {
                n += p.find(tCookieAck) != nullptr ? 1 : 0;
            }
            ctx.check(n == 1, "D06", "cookie-not-accepted", "a repeated cookie was acknowledged %zu times", n);
        }
        if (state >= kEstablished) {
            // The association goes on
            const auto events = d.a.events.size();
            const auto t = d.peerTsn;
            if (state == kBusy) {
                d.feed({ dataChunk(t - 2, 1, 1, fE, pBinary, { 9 }) });
            } else {
                d.feed({ dataChunk(t, 1, 1, fB | fE, pText, { 9 }) });
            }
            ctx.check(d.a.events.size() == events + (state == kBusy ? 2 : 1), "D06", "disturbed", "an INIT disturbed the established association");
            for (const auto& p : d.take()) {
                ctx.check(p.tag == kPeerTag, "D06", "disturbed", "an INIT changed the tag of an established association");
            }
        }
    } else if (what == 1) {
        if (state < kEstablished) {
            return;
        }
        // HEARTBEAT
        const int n = ctx.choose(70, "size");
        const auto info = W().u16(1).u16(static_cast<uint32_t>(4 + n)).bytes(mcu::pattern(ctx.seed(), 5, static_cast<size_t>(n))).b;
        d.feed({ { tHeartbeat, 0, info } });
        size_t acks = 0;
        for (const auto& p : d.take()) {
            if (const auto* c = p.find(tHeartbeatAck)) {
                acks += 1;
                ctx.check(c->body == info && p.tag == kPeerTag, "D06", "heartbeat-ack", "the HEARTBEAT ACK has other information");
            }
        }
        ctx.check(acks == 1, "D06", "heartbeat", "a HEARTBEAT was answered %zu times", acks);
    } else if (what == 2) {
        if (state < kEstablished) {
            return;
        }
        // Stream resets
        const int streams = ctx.choose(4, "streams"); // 1; 9 (none); 1 and 9; 9 and 1
        static const std::vector<uint16_t> ids[] = { { 1 }, { 9 }, { 1, 9 }, { 9, 1 } };
        W param;
        param.u16(13).u16(static_cast<uint32_t>(16 + 2 * ids[streams].size())).u32(0x11223344).u32(0).u32(d.peerTsn - 1);
        for (const auto id : ids[streams]) {
            param.u16(id);
        }
        const int times = 1 + ctx.choose(3, "times");
        size_t closed = 0;
        for (int i = 0; i < times; i += 1) {
            const auto events = d.a.events.size();
            d.feed({ { tReconfig, 0, param.b } });
            for (size_t k = events; k < d.a.events.size(); k += 1) {
                ctx.check(d.a.events[k].kind == 'C' && d.a.events[k].label == "x", "D06", "reset-event", "unexpected event");
                closed += 1;
            }
            size_t n = 0;
            for (const auto& p : d.take()) {
                if (const auto* c = p.find(tReconfig)) {
                    const auto r = findParam(c->body, 0, 16);
                    ctx.check(r && r->size() >= 8 && rd32(*r, 0) == 0x11223344 && rd32(*r, 4) <= 1 && p.tag == kPeerTag, "D06", "reset-response", "bad response to a reset");
                    n += 1;
                }
            }
            ctx.check(n == 1, "D06", "reset-response", "a reset request was answered %zu times", n);
        }
        const size_t expected = streams == 1 ? 0 : 1;
        ctx.check(closed == expected, "D06", "reset-closed", "the channel was reported closed %zu times", closed);
        ctx.check(d.a.canSend("x") == (expected == 0), "D06", "reset-state", "the channel is %s", expected ? "still open" : "closed");
        if (expected == 1) {
            // The stream can be used again
            if (state == kEstablished) {
                const auto events = d.a.events.size();
                d.data(1, 0, fB | fE, pDcep, dcepOpen("again"));
                d.data(1, 1, fB | fE, pText, { 'k' });
                ctx.check(d.a.events.size() == events + 2 && d.a.events.back().label == "again" && d.a.events.back().kind == 'T', "D06", "reopen",
                          "a channel opened again on the stream does not work");
            }
        }
    } else {
        if (state < kEstablished) {
            return;
        }
        // A data chunk is acknowledged whatever it is, and again when it is repeated
        const auto c = state == kBusy ? dataChunk(d.peerTsn - 2, 1, 1, fE, pBinary, { 9 }) : dataChunk(d.peerTsn, 1, 1, fB | fE, pText, { 9 });
        const uint32_t cum = state == kBusy ? d.peerTsn - 1 : d.peerTsn;
        for (int i = 0; i < 2; i += 1) {
            d.feed({ c });
            size_t n = 0;
            for (const auto& p : d.take()) {
                if (const auto* s = p.find(tSack)) {
                    n += 1;
                    ctx.check(s->body.size() >= 12 && rd32(s->body, 0) == cum && rd16(s->body, 8) == 0 && p.tag == kPeerTag, "D06", "sack", "bad SACK");
                }
            }
            ctx.check(n >= 1, "D06", "no-sack", "data was not acknowledged");
        }
    }
}

// The checksum of everything it sends and accepts
void runChecksum(Ctx& ctx)
{
    begin(ctx, kRandoms);
    Direct d(ctx, {}, 500);
    bring(d, kEstablished);
    static const size_t sizes[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 64, 1099, 1100 };
    const auto size = sizes[ctx.choose(16, "size")];
    const auto fill = static_cast<uint8_t>(ctx.choose(256, "byte"));
    // One other byte, in each place of the last 16
    for (size_t at = 0; at < std::min<size_t>(size, 16); at += 1) {
        Message m;
        m.text = false;
        m.data = Bytes(size, 0);
        m.data[at] = fill;
        d.a.send("x", m);
        d.sackAll(100000);
        const auto events = d.a.events.size();
        auto b = makePacket(5001, 5000, d.tag, { dataChunk(d.peerTsn++, 1, static_cast<uint16_t>(at + 1), fB | fE, pBinary, m.data) });
        d.a.receive(b);
        ctx.check(d.a.events.size() == events + 1 && d.a.events.back().data == m.data, "D06", "checksum", "a correct packet with %zu bytes of data was not accepted", size);
    }
}

} // namespace

namespace mc
{
void registerScenarios(bool)
{
    env::quiet();
    add("open", { "D02" }, 2, 3, [](Ctx& c) { runTwo(c, false); });
    add("open-peer", { "D02" }, 2, 3, [](Ctx& c) { runPeer(c, false); });
    add("transfer", { "D01", "D05", "D06" }, 1, 2, [](Ctx& c) { runTwo(c, true); });
    add("transfer-peer", { "D01", "D05", "D06" }, 1, 2, [](Ctx& c) { runPeer(c, true); });
    add("transfer-deep", { "D01" }, 3, 4, runTwoDeep);
    add("bulk", { "D01" }, 1, 1, runBulk);
    add("all-sizes", { "D01", "D06" }, 0, 0, runAllSizes);
    add("flow", { "D04" }, 0, 0, runFlow);
    add("far-gap", { "D04" }, 0, 0, runFarGap);
    add("reassembly", { "D03" }, 0, 1, runReassembly);
    add("ssn-wrap", { "D03" }, 0, 0, runSsnWrap);
    add("many-gaps", { "D03", "D06" }, 0, 0, runManyGaps);
    add("buffer", { "D03" }, 0, 0, runBuffer);
    add("mutations", { "D05" }, 0, 0, runMutations);
    add("types", { "D05" }, 0, 0, runTypes);
    add("strings", { "D05" }, 0, 0, runStrings);
    add("wrong", { "D05" }, 0, 0, runWrong);
    add("requests", { "D06" }, 0, 0, runRequests);
    add("checksum", { "D06" }, 0, 0, runChecksum);
}
} // namespace mc
