// Connectivity checks: which messages are accepted, and what is done about them
#include "peers.h"
#include "stun.h"

#include "srtc/ice_agent.h"

#include <openssl/ssl.h>

#include <map>
#include <set>

using namespace st;
using namespace peers;

namespace
{

const std::string kUser = "Lufr:Rufrag99";
const std::string kPass = "localpassword0123456789ab";
const std::string kOther = "remotepassword0123456789a";

Bytes id12(uint8_t tag)
{
    Bytes r(12);
    for (size_t i = 0; i < 12; i += 1) {
        r[i] = static_cast<uint8_t>(tag * 31 + i * 7);
    }
    return r;
}

// ----- The agent alone: single messages

struct Sample {
    const char* name;
    bool request;
    std::string user;
    Bytes data;
};

Bytes close(Bytes m, const std::string& password)
{
    integrity(m, password);
    fingerprint(m);
    return m;
}

std::vector<Sample> makeSamples()
{
    std::vector<Sample> r;
    const auto request = [&](const char* name, const std::string& user, int shape) {
        auto m = header(kRequest, id12(static_cast<uint8_t>(r.size())));
        if (shape == 1) {
            attr(m, kUsername, user);
        }
        if (shape != 2) {
            attr(m, kSoftware, std::string("peer"));
            attr(m, kControlling, Bytes(8, 0x5a));
        }
        if (shape == 3) {
            attr(m, kUseCandidate, Bytes{});
            attr(m, 0xc057, Bytes{ 1, 2, 3 });
        }
        attr(m, kPriority, Bytes{ 110, 0, 1, 255 });
        if (shape != 1) {
            attr(m, kUsername, user);
        }
        r.push_back({ name, true, user, close(m, kPass) });
    };
    request("request", kUser, 0);
    request("request, user name first", kUser, 1);
    request("shortest request", "a:b", 2);
    request("request with USE-CANDIDATE", kUser, 3);
    request("request, long user name", std::string(200, 'l') + ":" + std::string(200, 'r'), 1);
    for (int shape = 0; shape < 4; shape += 1) {
        auto m = header(kResponse, id12(static_cast<uint8_t>(r.size())));
        if (shape == 1) {
            attr(m, kSoftware, std::string("some server 1.0"));
        }
        if (shape == 0 || shape == 1) {
            const uint8_t ip[4] = { 10, 0, 0, 1 };
            attr(m, kXorMapped, xorMapped4(ip, 5001));
        } else if (shape == 2) {
            attr(m, kXorMapped, Bytes{ 0, 2, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18 });
        }
        r.push_back({ "response", false, "", close(m, kPass) });
    }
    return r;
}

const std::vector<Sample>& samples()
{
    static const auto r = makeSamples();
    return r;
}

bool accepts(bool request, const Bytes& m, const std::string& user, const std::string& password)
{
    srtc::IceAgent agent;
    const mcu::Exact exact(m);
    stun::StunMessage msg = {};
    msg.buffer = const_cast<uint8_t*>(exact.data());
    msg.buffer_len = exact.size();
    return request ? agent.verifyRequestMessage(&msg, user, password) : agent.verifyResponseMessage(&msg, password);
}

void judge(mc::Ctx& ctx, bool request, const Bytes& m, const std::string& user, const std::string& password)
{
    const auto ok = accepts(request, m, user, password);
    const auto u = request ? std::optional<std::string>(user) : std::nullopt;
    ctx.step();
    ctx.outcome(mc::mix(mcu::hashBytes(m), ok));
    ctx.log("%s %s: %s", request ? "request" : "response", mcu::hex(m, 200).c_str(), ok ? "accepted" : "refused");
    if (ok) {
        const auto why = unacceptable(m, u, password);
        ctx.check(why.empty(),
                  "C01",
                  "accepted",
                  "a %s is accepted although: %s (%s)",
                  request ? "request" : "response",
                  why.c_str(),
                  mcu::hex(m, 160).c_str());
    } else {
        ctx.check(!strictlyGood(m, u, password),
                  "C01",
                  "refused",
                  "a correct %s is refused: %s",
                  request ? "request" : "response",
                  mcu::hex(m, 160).c_str());
    }
}

// The integrity or just the checksum made right again
void refix(mc::Ctx& ctx, Bytes& m, const std::string& password)
{
    const auto how = ctx.choose(3, "sum");
    const auto p = parse(m);
    if (how == 2) {
        if (const auto mac = p.first(kIntegrity); mac && mac->len == 20) {
            const auto v = macOf(m, mac->at, password);
            std::copy(v.begin(), v.end(), m.begin() + static_cast<long>(mac->at) + 4);
        }
    }
    if (how >= 1) {
        for (const auto& a : p.attrs) {
            if (a.type == kFingerprint && a.len == 4) {
                const auto v = crcOf(m, a.at);
                std::copy(v.begin(), v.end(), m.begin() + static_cast<long>(a.at) + 4);
            }
        }
    }
}

const Sample& pick(mc::Ctx& ctx)
{
    return samples()[static_cast<size_t>(ctx.choose(static_cast<int>(samples().size()), "message"))];
}

void bitsScenario(mc::Ctx& ctx)
{
    const auto& s = pick(ctx);
    auto m = s.data;
    const auto at = static_cast<size_t>(ctx.choose(static_cast<int>(m.size()), "byte"));
    if (ctx.thorough()) {
        m[at] ^= static_cast<uint8_t>(1 + ctx.choose(255, "change"));
    } else {
        m[at] ^= static_cast<uint8_t>(1u << ctx.choose(8, "bit"));
    }
    const auto fix = ctx.choose(2, "sum");
    if (fix) {
        for (const auto& a : parse(m).attrs) {
            if (a.type == kFingerprint && a.len == 4) {
                const auto v = crcOf(m, a.at);
                std::copy(v.begin(), v.end(), m.begin() + static_cast<long>(a.at) + 4);
            }
        }
    }
    judge(ctx, s.request, m, s.user, kPass);
}

// Two bytes at once, to be sure that two changes cannot make up for each other
void pairsScenario(mc::Ctx& ctx)
{
    const auto n = static_cast<int>(samples()[2].data.size());
    const auto request = ctx.choose(2, "request") == 0;
    const auto& s = request ? samples()[2] : samples()[8];
    auto m = s.data;
    const auto i = static_cast<size_t>(ctx.choose(request ? n : static_cast<int>(m.size()), "first"));
    const auto rest = static_cast<int>(m.size() - i) - 1;
    if (rest > 0) {
        const auto j = i + 1 + static_cast<size_t>(ctx.choose(rest, "second"));
        static const uint8_t changes[] = { 0x01, 0x04, 0x20, 0x80, 0xff };
        m[i] ^= changes[ctx.choose(5, "change")];
        m[j] ^= changes[ctx.choose(5, "change")];
    }
    if (ctx.choose(2, "sum")) {
        for (const auto& a : parse(m).attrs) {
            if (a.type == kFingerprint && a.len == 4) {
                const auto v = crcOf(m, a.at);
                std::copy(v.begin(), v.end(), m.begin() + static_cast<long>(a.at) + 4);
            }
        }
    }
    judge(ctx, s.request, m, s.user, kPass);
}

void shapeScenario(mc::Ctx& ctx)
{
    const auto& s = pick(ctx);
    auto m = s.data;
    const auto original = parse(m);
    const auto n = static_cast<int>(original.attrs.size());
    const auto cut = [&](int k) {
        const auto& a = original.attrs[static_cast<size_t>(k)];
        return Bytes(m.begin() + static_cast<long>(a.at), m.begin() + static_cast<long>(a.at + 4 + ((a.len + 3) & ~size_t(3))));
    };
    const auto rebuild = [&](const std::vector<Bytes>& list) {
        m.resize(20);
        for (const auto& b : list) {
            m.insert(m.end(), b.begin(), b.end());
        }
        setLength(m, m.size());
    };
    std::vector<Bytes> list;
    for (int k = 0; k < n; k += 1) {
        list.push_back(cut(k));
    }
    static const int lengths[] = { 0x7fff, 0x8000, 0xfff0, 0xfffc, 0xfffd, 0xffff };
    switch (ctx.choose(10, "change")) {
    case 0: // as it is
        break;
    case 1: { // cut off
        const auto to = 21 + ctx.choose(static_cast<int>(m.size()) - 21, "size");
        m.resize(static_cast<size_t>(to));
        if (ctx.choose(2, "length")) {
            setLength(m, m.size());
        }
        break;
    }
    case 2: { // the length in the header
        const auto k = ctx.choose(static_cast<int>(m.size()) + 70, "length");
        set16(m, 2, static_cast<uint16_t>(k < static_cast<int>(m.size()) + 64 ? k : lengths[k - static_cast<int>(m.size()) - 64]));
        break;
    }
    case 3: { // the length of an attribute
        const auto& a = original.attrs[static_cast<size_t>(ctx.choose(n, "attribute"))];
        const auto k = ctx.choose(static_cast<int>(a.len) + 40 + 6, "length");
        set16(m,
              a.at + 2,
              static_cast<uint16_t>(k < static_cast<int>(a.len) + 40 ? k : lengths[k - static_cast<int>(a.len) - 40]));
        break;
    }
    case 4: // one missing
        list.erase(list.begin() + ctx.choose(n, "attribute"));
        rebuild(list);
        break;
    case 5: { // two exchanged
        const auto k = ctx.choose(n, "attribute");
        const auto l = ctx.choose(n, "attribute");
        std::swap(list[static_cast<size_t>(k)], list[static_cast<size_t>(l)]);
        rebuild(list);
        break;
    }
    case 6: { // one twice
        const auto k = ctx.choose(n, "attribute");
        const auto l = ctx.choose(n + 1, "position");
        auto b = list[static_cast<size_t>(k)];
        if (ctx.choose(2, "spoiled") && b.size() > 4) {
            b[4] ^= 0x01;
        }
        list.insert(list.begin() + l, b);
        rebuild(list);
        break;
    }
    case 7: { // one more
        static const std::vector<Bytes> more = {
            { 0x80, 0x77, 0, 0 },
            { 0x80, 0x77, 0, 5, 1, 2, 3, 4, 5, 0, 0, 0 },
            { 0x00, 0x77, 0, 4, 1, 2, 3, 4 },
            { 0x00, 0x00, 0, 0 },
            { 0xff, 0xff, 0, 0 },
            { 0x00, 0x06, 0, 0 },
            { 0x00, 0x06, 0, 1, 'x', 0, 0, 0 },
            { 0x00, 0x08, 0, 0 },
            { 0x00, 0x08, 0, 4, 0, 0, 0, 0 },
            { 0x80, 0x28, 0, 0 },
            { 0x80, 0x28, 0, 4, 0, 0, 0, 0 },
            { 0x00, 0x09, 0, 4, 0, 0, 4, 1 },
        };
        const auto k = ctx.choose(static_cast<int>(more.size()), "attribute");
        const auto l = ctx.choose(n + 1, "position");
        list.insert(list.begin() + l, more[static_cast<size_t>(k)]);
        rebuild(list);
        break;
    }
    case 8: { // followed by something
        const auto k = 1 + ctx.choose(12, "bytes");
        for (int i = 0; i < k; i += 1) {
            m.push_back(static_cast<uint8_t>(i));
        }
        if (ctx.choose(2, "length")) {
            setLength(m, m.size());
        }
        break;
    }
    case 9: { // the type of an attribute
        static const uint16_t types[] = { 0, 1, 6, 8, 9, 0x20, 0x24, 0x25, 0x8022, 0x8028, 0x802a, 0xffff };
        const auto& a = original.attrs[static_cast<size_t>(ctx.choose(n, "attribute"))];
        set16(m, a.at, types[ctx.choose(12, "type")]);
        break;
    }
    }
    const auto wrong = ctx.choose(2, "password") != 0;
    refix(ctx, m, wrong ? kOther : kPass);
    judge(ctx, s.request, m, s.user, kPass);
}

// Credentials in use against those of the message
void credentialsScenario(mc::Ctx& ctx)
{
    const std::vector<std::string> users = { "Lufr:Rufrag99", "Lufr:Rufrag9", "ufr:Rufrag99", "Rufrag99:Lufr", "lufr:rufrag99",
                                             "Lufr:Rufrag990", "Lufr", "Lufr:", ":Rufrag99", "Lufr::Rufrag99",
                                             std::string("Lufr:Rufrag99\0", 14), std::string("Lufr\0Rufrag99", 13), "" };
    const std::vector<std::string> passwords = { kPass, kOther, kPass.substr(1), kPass.substr(0, kPass.size() - 1),
                                                 kPass + "x", "LOCALPASSWORD0123456789AB", "", std::string(64, 'p'),
                                                 std::string(65, 'p'), std::string(200, 'p') };
    const auto request = ctx.choose(2, "request") == 0;
    const auto& u1 = users[request ? static_cast<size_t>(ctx.choose(static_cast<int>(users.size()), "user")) : 0];
    const auto& u2 = users[request ? static_cast<size_t>(ctx.choose(static_cast<int>(users.size()) - 1, "user")) : 0];
    const auto& p1 = passwords[static_cast<size_t>(ctx.choose(static_cast<int>(passwords.size()), "password"))];
    const auto& p2 = passwords[static_cast<size_t>(ctx.choose(static_cast<int>(passwords.size()), "password"))];
    auto m = header(request ? kRequest : kResponse, id12(9));
    attr(m, kPriority, Bytes{ 110, 0, 1, 255 });
    if (request) {
        attr(m, kUsername, u1);
    }
    judge(ctx, request, close(m, p1), u2, p2);
}

// Every short sequence of attributes
void sequencesScenario(mc::Ctx& ctx)
{
    const auto request = ctx.choose(2, "request") == 0;
    auto m = header(request ? kRequest : kResponse, id12(3));
    const auto max = ctx.thorough() ? 5 : 4;
    const auto items = 16;
    for (int i = 0; i < max; i += 1) {
        const auto k = ctx.choose(items + 1, "attribute");
        if (k == items) {
            break;
        }
        bool end = false;
        const auto raw = [&](const Bytes& b) {
            m.insert(m.end(), b.begin(), b.end());
            setLength(m, m.size());
        };
        switch (k) {
        case 0:
            attr(m, kUsername, kUser);
            break;
        case 1:
            integrity(m, kPass);
            break;
        case 2:
            fingerprint(m);
            break;
        case 3:
            attr(m, kUsername, kUser + "x");
            break;
        case 4:
            integrity(m, kOther);
            break;
        case 5:
            attr(m, kFingerprint, Bytes{ 1, 2, 3, 4 });
            break;
        case 6:
            attr(m, 0x8077, Bytes{ 1, 2, 3, 4, 5 });
            break;
        case 7:
            attr(m, kErrorCode, Bytes{ 0, 0, 4, 1 });
            break;
        case 8:
            attr(m, kIntegrity, Bytes(4, 0));
            break;
        case 9:
            attr(m, kFingerprint, Bytes(20, 0));
            break;
        case 10:
            attr(m, kUsername, std::string());
            break;
        default: {
            // The last one, not complete
            static const uint16_t types[] = { kUsername, kIntegrity, kFingerprint, kSoftware, kErrorCode };
            static const int lens[] = { 0, 1, 4, 20, 0xfffc, 0xffff };
            const auto t = types[k - 11];
            const auto len = lens[ctx.choose(6, "length")];
            Bytes b = { static_cast<uint8_t>(t >> 8), static_cast<uint8_t>(t), static_cast<uint8_t>(len >> 8), static_cast<uint8_t>(len) };
            b.resize(static_cast<size_t>(1 + ctx.choose(6, "bytes")));
            raw(b);
            if (ctx.choose(2, "length")) {
                set16(m, 2, static_cast<uint16_t>(0xfff0));
            }
            end = true;
            break;
        }
        }
        if (end) {
            break;
        }
    }
    if (m.size() <= 20) {
        return;
    }
    judge(ctx, request, m, kUser, kPass);
}

// ----- Messages that the agent makes

void produceScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    srtc::IceAgent agent;
    uint8_t buffer[2048];
    const auto shape = ctx.choose(3, "shape");
    static const size_t lens[] = { 4, 22, 23, 24, 32, 63, 64, 65, 128, 256 };
    const auto pass = std::string(lens[ctx.choose(10, "password")], 'p');
    const auto user = std::string(lens[ctx.choose(10, "user")], 'u') + ":" + std::string(lens[ctx.choose(10, "user")], 'v');
    stun::StunMessage msg = {};
    Bytes id;
    if (shape < 2) {
        ctx.check(agent.initRequest(&msg, buffer, sizeof(buffer), stun::STUN_BINDING), "C01", "produce", "no request");
        if (shape == 1) {
            stun::stun_message_append_flag(&msg, stun::STUN_ATTRIBUTE_USE_CANDIDATE);
        }
        stun::stun_message_append32(&msg, stun::STUN_ATTRIBUTE_PRIORITY, 0x6e0001ff);
        ctx.check(agent.finishMessage(&msg, user, pass), "C01", "produce", "a request cannot be completed");
    } else {
        auto m = header(kRequest, id12(static_cast<uint8_t>(lens[3])));
        id = Bytes(m.begin() + 4, m.begin() + 20);
        attr(m, kUsername, user);
        m = close(m, kOther);
        stun::StunMessage request = {};
        request.buffer = m.data();
        request.buffer_len = m.size();
        ctx.check(agent.initResponse(&msg, buffer, sizeof(buffer), &request), "C01", "produce", "no response");
        ctx.check(agent.finishMessage(&msg, std::nullopt, pass), "C01", "produce", "a response cannot be completed");
    }
    const Bytes out(buffer, buffer + stun::stun_message_length(&msg));
    const auto u = shape < 2 ? std::optional<std::string>(user) : std::nullopt;
    ctx.check(strictlyGood(out, u, pass), "C01", "produced", "what is made is not correct: %s", mcu::hex(out, 400).c_str());
    ctx.check(get16(out, 0) == (shape < 2 ? kRequest : kResponse), "C01", "produced", "wrong type %04x", get16(out, 0));
    const auto p = parse(out);
    const Bytes cookie = { 0x21, 0x12, 0xa4, 0x42 };
    ctx.check(Bytes(p.id.begin(), p.id.begin() + 4) == cookie && (id.empty() || p.id == id),
              "C01",
              "produced",
              "wrong transaction identifier %s",
              mcu::hex(p.id).c_str());
    ctx.check(accepts(shape < 2, out, user, pass), "C01", "own-refused", "what one agent makes the other refuses");
    // ... and with other credentials
    std::string pass2 = pass, user2 = user;
    switch (ctx.choose(4, "other")) {
    case 0:
        pass2.back() = 'q';
        break;
    case 1:
        pass2 += 'p';
        break;
    case 2:
        pass2.pop_back();
        break;
    default:
        if (shape == 2) {
            return;
        }
        user2.back() = 'w';
        break;
    }
    ctx.check(!accepts(shape < 2, out, user2, pass2), "C01", "own-accepted", "accepted under other credentials");
    ctx.step(2);
    ctx.outcome(mcu::hashBytes(out));
}

// ----- Which requests are outstanding

void transactionsScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    srtc::IceAgent agent;
    uint8_t buffer[512];
    struct Out {
        Bytes id;
        int64_t at;
    };
    std::vector<Out> open;
    std::vector<Bytes> gone;
    int made = 0;
    const auto depth = ctx.thorough() ? 7 : 5;
    for (int i = 0; i < depth; i += 1) {
        const auto nOpen = static_cast<int>(open.size());
        const auto move = ctx.choose(6 + nOpen, "move");
        ctx.step();
        const auto forget = [&](const Bytes& id, float& rtt) {
            stun::StunTransactionId raw;
            std::copy(id.begin(), id.end(), raw);
            return agent.forgetTransaction(raw, rtt);
        };
        float rtt = -1;
        if (move == 0) {
            stun::StunMessage msg = {};
            agent.initRequest(&msg, buffer, sizeof(buffer), stun::STUN_BINDING);
            agent.finishMessage(&msg, kUser, kPass);
            Bytes id(buffer + 4, buffer + 20);
            for (const auto& o : open) {
                ctx.check(o.id != id, "C01", "same-id", "two requests with one identifier");
            }
            open.push_back({ id, env::nowUs() });
            made += 1;
            ctx.log("request %d", made);
        } else if (move == 1) {
            const auto id = header(0, id12(200));
            ctx.check(!forget(Bytes(id.begin() + 4, id.end()), rtt), "C01", "unknown-accepted", "an identifier never used is known");
        } else if (move == 2) {
            if (gone.empty()) {
                return;
            }
            ctx.check(!forget(gone.back(), rtt), "C01", "repeated-accepted", "a request that was answered, or has expired, is outstanding");
            ctx.check(!forget(gone.front(), rtt), "C01", "repeated-accepted", "a request that was answered, or has expired, is outstanding");
        } else if (move == 3 || move == 4) {
            env::advanceUs(move == 3 ? 1000000 : 4500000);
            ctx.log("%s s later", move == 3 ? "1" : "4.5");
        } else if (move == 5) {
            agent.forgetExpiredTransactions(std::chrono::milliseconds(5000));
            for (auto it = open.begin(); it != open.end();) {
                if (it->at < env::nowUs() - 5000000) {
                    gone.push_back(it->id);
                    it = open.erase(it);
                } else {
                    ++it;
                }
            }
            ctx.log("expire");
        } else {
            const auto k = open.begin() + (move - 6);
            ctx.log("answer to the one of %.1f s ago", static_cast<double>(env::nowUs() - k->at) / 1e6);
            ctx.check(forget(k->id, rtt), "C01", "outstanding-unknown", "an outstanding request is not known");
            const auto expected = static_cast<float>(env::nowUs() - k->at) / 1000.0f;
            ctx.check(rtt >= expected - 1 && rtt <= expected + 1, "C01", "rtt", "round trip of %.1f ms reported as %.1f", expected, rtt);
            gone.push_back(k->id);
            open.erase(k);
        }
        ctx.state(mc::mix(mc::mix(open.size(), gone.size()), env::nowUs()));
    }
    ctx.outcome(mc::mix(open.size(), gone.size()));
}

// ----- A connection and the other side's connectivity checks, made here

const uint8_t kPubIp[4] = { 10, 0, 0, 1 };
const uint8_t kSubIp[4] = { 10, 0, 0, 2 };

struct Other {
    mc::Ctx& ctx;
    Pair pair;
    int ep = -1;
    std::string toPubUser, fromPubUser, pubPass, subPass;
    std::vector<Bytes> requests; // of the connection
    std::vector<Bytes> useCandidate;
    std::set<Bytes> ids;
    std::map<Bytes, int> expected; // responses by identifier
    int dtls = 0;
    uint8_t tag = 1;

    explicit Other(mc::Ctx& c)
        : ctx(c)
        , pair(c)
    {
    }

    void credentials()
    {
        const auto p = attribute(pair.pub->offerText, "ice-ufrag");
        const auto s = attribute(pair.sub->offerText, "ice-ufrag");
        toPubUser = p + ":" + s;
        fromPubUser = s + ":" + p;
        pubPass = attribute(pair.pub->offerText, "ice-pwd");
        subPass = attribute(pair.sub->offerText, "ice-pwd");
    }

    void look(const Bytes& d)
    {
        ctx.log("%8.1f ms: received %s", static_cast<double>(env::nowUs()) / 1000.0, mcu::hex(d, 24).c_str());
        if (d.empty() || d[0] > 1) {
            dtls += 1;
            return;
        }
        const auto p = parse(d);
        if (p.type == kRequest) {
            ctx.check(strictlyGood(d, fromPubUser, subPass),
                      "C01",
                      "sent-request",
                      "a connectivity check sent does not verify: %s",
                      mcu::hex(d, 200).c_str());
            ctx.check(ids.insert(p.id).second, "C01", "same-id", "two connectivity checks with one identifier");
            requests.push_back(d);
            if (p.first(kUseCandidate)) {
                useCandidate.push_back(d);
            }
        } else if (p.type == kResponse) {
            const auto it = expected.find(p.id);
            ctx.check(it != expected.end() && it->second > 0,
                      "C01",
                      "answered",
                      "a response to no correct request: %s",
                      mcu::hex(d, 200).c_str());
            it->second -= 1;
            ctx.check(strictlyGood(d, std::nullopt, pubPass),
                      "C01",
                      "sent-response",
                      "a response sent does not verify: %s",
                      mcu::hex(d, 200).c_str());
            const auto x = p.first(kXorMapped);
            ctx.check(x && x->value == xorMapped4(kSubIp, 5002),
                      "C01",
                      "mapped-address",
                      "the response does not say where the request came from: %s",
                      mcu::hex(d, 200).c_str());
        } else {
            ctx.violation("sent-other", "neither a request nor a response: %s", mcu::hex(d, 200).c_str());
        }
    }

    void drain()
    {
        Bytes d;
        sim::Addr from;
        while (sim::ready(ep) && sim::receive(ep, d, from)) {
            look(d);
        }
    }

    void sendTo(const Bytes& d)
    {
        ctx.log("%8.1f ms: send %s", static_cast<double>(env::nowUs()) / 1000.0, mcu::hex(d, 200).c_str());
        sim::send(ep, pair.pubAddr, d);
    }

    [[nodiscard]] Bytes response(const Bytes& request) const
    {
        auto m = header(kResponse, Bytes(request.begin() + 8, request.begin() + 20));
        attr(m, kXorMapped, xorMapped4(kPubIp, 5001));
        return m;
    }

    [[nodiscard]] Bytes request(bool useCandidate)
    {
        auto m = header(kRequest, id12(tag++));
        attr(m, kPriority, Bytes{ 110, 0, 1, 255 });
        attr(m, kControlled, Bytes(8, 0x33));
        if (useCandidate) {
            attr(m, kUseCandidate, Bytes{});
        }
        return m;
    }

    // Not to be accepted by anyone
    Bytes badResponse(const Bytes& req)
    {
        auto m = response(req);
        switch (ctx.choose(7, "why not good")) {
        case 0:
            return close(m, pubPass);
        case 1:
            m = close(m, subPass);
            m[27] ^= 1; // the mapped port
            fixSum(m);
            return m;
        case 2:
            fingerprint(m);
            return m;
        case 3:
            m = close(m, subPass);
            m.back() ^= 1;
            return m;
        case 4: { // an error, by anyone
            auto e = header(kResponse, Bytes(req.begin() + 8, req.begin() + 20));
            attr(e, kErrorCode, Bytes{ 0, 0, 4, 1 });
            fingerprint(e);
            return e;
        }
        case 5: // ends in the middle of the message integrity
            m = close(m, subPass);
            m.resize(m.size() - 20);
            return m;
        default:
            integrity(m, subPass);
            return m;
        }
    }

    Bytes badRequest()
    {
        auto m = request(false);
        switch (ctx.choose(8, "why not good")) {
        case 0:
            attr(m, kUsername, toPubUser);
            return close(m, subPass);
        case 1:
            attr(m, kUsername, fromPubUser);
            return close(m, pubPass);
        case 2:
            return close(m, pubPass);
        case 3:
            attr(m, kUsername, toPubUser);
            m = close(m, pubPass);
            m[25] ^= 1;
            fixSum(m);
            return m;
        case 4:
            integrity(m, pubPass);
            attr(m, kUsername, toPubUser);
            fingerprint(m);
            return m;
        case 5:
            attr(m, kUsername, toPubUser);
            m = close(m, pubPass);
            m.back() ^= 0x80;
            return m;
        case 6:
            attr(m, kUsername, toPubUser);
            fingerprint(m);
            return m;
        default:
            attr(m, kUsername, toPubUser);
            m = close(m, pubPass);
            m.resize(m.size() - 4);
            return m;
        }
    }

    static void fixSum(Bytes& m)
    {
        for (const auto& a : parse(m).attrs) {
            if (a.type == kFingerprint && a.len == 4) {
                const auto v = crcOf(m, a.at);
                std::copy(v.begin(), v.end(), m.begin() + static_cast<long>(a.at) + 4);
            }
        }
    }
};

void exchangeScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    sim::Config config;
    config.links = Pair::links();
    sim::Guard guard(ctx, config);
    PairConfig cfg;
    cfg.video = false;
    cfg.subIsServer = true;
    Other other(ctx);
    auto& pair = other.pair;
    pair.make(cfg);
    other.credentials();
    other.ep = sim::openEndpoint(pair.subAddr);
    pair.pub->pc->setAnswer(pair.pub->answer);
    sim::sleepUs(30000);
    other.drain();
    ctx.check(other.requests.size() == 1, "C01", "no-request", "%zu connectivity checks at the start", other.requests.size());

    bool ice = false;
    std::vector<Bytes> unanswered = other.requests;
    size_t seen = other.requests.size();
    Bytes last;
    const auto depth = ctx.thorough() ? 4 : 3;
    for (int i = 0; i < depth; i += 1) {
        switch (ctx.choose(10, "move")) {
        case 0:
            sim::sleepUs(370000);
            break;
        case 1: // good
        case 2: {
            if (unanswered.empty()) {
                break;
            }
            const auto newest = unanswered.size() > 1 && ctx.choose(2, "which");
            const auto it = newest ? unanswered.end() - 1 : unanswered.begin();
            last = close(other.response(*it), other.subPass);
            unanswered.erase(it);
            other.sendTo(last);
            ice = true;
            break;
        }
        case 3:
            if (unanswered.empty()) {
                break;
            }
            other.sendTo(other.badResponse(unanswered.back()));
            break;
        case 4: { // to a request never made
            auto m = header(kResponse, id12(250));
            attr(m, kXorMapped, xorMapped4(kPubIp, 5001));
            other.sendTo(close(m, other.subPass));
            break;
        }
        case 5:
            if (last.empty()) {
                break;
            }
            other.sendTo(last);
            break;
        case 6: {
            auto m = other.request(ctx.choose(2, "use candidate") != 0);
            attr(m, kUsername, other.toPubUser);
            m = close(m, other.pubPass);
            const auto n = 1 + ctx.choose(2, "times");
            for (int k = 0; k < n; k += 1) {
                other.expected[parse(m).id] += 1;
                other.sendTo(m);
            }
            break;
        }
        case 7:
            other.sendTo(other.badRequest());
            break;
        case 8: // what it sent itself
            other.sendTo(other.requests.back());
            break;
        default: { // a good response, but of another kind
            if (unanswered.empty()) {
                break;
            }
            auto m = other.response(unanswered.back());
            static const uint16_t types[] = { kIndication, kError, 0x0103, 0x0113 };
            set16(m, 0, types[ctx.choose(4, "type")]);
            other.sendTo(close(m, other.subPass));
            break;
        }
        }
        ctx.step();
        sim::sleepUs(30000);
        other.drain();
        for (; seen < other.requests.size(); seen += 1) {
            unanswered.push_back(other.requests[seen]);
        }
        for (const auto& e : other.expected) {
            ctx.check(e.second == 0, "C01", "not-answered", "a correct request got no response (%d missing)", e.second);
        }
        ctx.check(ice || (other.useCandidate.empty() && other.dtls == 0),
                  "C01",
                  "unauthenticated",
                  "went on to connect (%zu nominations, %d DTLS packets) without an authentic response",
                  other.useCandidate.size(),
                  other.dtls);
        ctx.check(!ice || (!other.useCandidate.empty() && other.dtls > 0),
                  "C01",
                  "response-ignored",
                  "an authentic response to an outstanding request had no effect (%zu nominations, %d DTLS packets)",
                  other.useCandidate.size(),
                  other.dtls);
        ctx.check(pair.pub->stateText() == "connecting",
                  "C01",
                  "state",
                  "states %s",
                  pair.pub->stateText().c_str());
        ctx.state(mc::mix(mc::mix(other.requests.size(), other.dtls), mc::mix(unanswered.size(), ice)));
    }
    ctx.outcome(mc::mix(other.requests.size(), other.dtls));
    pair.close();
    sim::closeEndpoint(other.ep);
}

// After the connection is made nothing gets through any more, but for responses made here
void keepAliveScenario(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    sim::Config config;
    config.links = Pair::links();
    bool cut = false;
    int policy = 0;
    const auto subAddr = sim::addr("10.0.0.2", 5002);
    std::vector<Bytes> asked;
    Bytes lastGood;
    std::vector<std::pair<int64_t, Bytes>> answers;
    config.fate = [&](sim::Datagram& d) -> std::vector<int64_t> {
        if (!cut) {
            return { config.latencyUs };
        }
        if (d.to == subAddr && !d.data.empty() && d.data[0] == 0 && parse(d.data).type == kRequest) {
            asked.push_back(d.data);
        }
        return {};
    };
    PairConfig cfg;
    cfg.video = false;
    cfg.subIsServer = ctx.choose(2, "role") != 0;
    sim::Guard guard(ctx, config);
    Other other(ctx);
    auto& pair = other.pair;
    pair.make(cfg);
    other.credentials();
    pair.start();
    if (!pair.connect()) {
        ctx.violation("not-connected", "the endpoints do not connect");
    }
    sim::sleepUs(2000000);
    cut = true;
    size_t answered = 0;
    const auto run = [&](int64_t us) {
        const auto until = env::nowUs() + us;
        while (env::nowUs() < until) {
            sim::sleepUs(20000);
            for (; answered < asked.size(); answered += 1) {
                const auto& req = asked[answered];
                Bytes m;
                int64_t delay = 10000;
                switch (policy) {
                case 0: // nothing
                    continue;
                case 1:
                    m = lastGood = close(other.response(req), other.subPass);
                    break;
                case 2:
                    m = close(other.response(req), other.pubPass);
                    break;
                case 3:
                    m = close(other.response(req), other.subPass);
                    m[27] ^= 1;
                    Other::fixSum(m);
                    break;
                case 4:
                    m = other.response(req);
                    fingerprint(m);
                    break;
                case 5:
                    m = other.response(req);
                    m[12] ^= 1;
                    m = close(m, other.subPass);
                    break;
                case 6: // too late
                    m = close(other.response(req), other.subPass);
                    delay = 6500000;
                    break;
                case 7: // the previous one again
                    if (lastGood.empty()) {
                        continue;
                    }
                    m = lastGood;
                    break;
                case 8: // late, not too late
                    m = close(other.response(req), other.subPass);
                    delay = 700000;
                    break;
                default: { // first a forged one, then a good one
                    sim::inject(pair.subAddr, pair.pubAddr, close(other.response(req), other.pubPass), 5000);
                    m = close(other.response(req), other.subPass);
                    break;
                }
                }
                sim::inject(pair.subAddr, pair.pubAddr, m, delay);
            }
        }
    };
    const auto good = [](int p) { return p == 1 || p == 8 || p == 9; };
    const auto start = pair.pub->states.size();
    const auto a = ctx.choose(10, "first");
    const auto b = ctx.choose(10, "then");
    ctx.log("answers: kind %d, then %d", a, b);
    policy = a;
    run(good(a) ? 12000000 : 4000000);
    ctx.step();
    if (good(a)) {
        ctx.check(pair.pub->states.size() == start && pair.pub->state() == State::Connected,
                  "C01",
                  "keep-alive-refused",
                  "authentic responses (kind %d) do not keep the connection: %s",
                  a,
                  pair.pub->stateText().c_str());
    } else {
        ctx.check(pair.pub->state() == State::Connecting,
                  "C01",
                  "keep-alive-accepted",
                  "responses that are not authentic (kind %d) keep the connection: %s",
                  a,
                  pair.pub->stateText().c_str());
    }
    policy = b;
    answered = asked.size();
    run(3200000);
    ctx.step();
    const auto now = pair.pub->state();
    if (good(b)) {
        ctx.check(now == State::Connected,
                  "C01",
                  "keep-alive-refused",
                  "authentic responses (kind %d after %d) do not bring the connection back: %s",
                  b,
                  a,
                  pair.pub->stateText().c_str());
    } else if (!good(a)) {
        ctx.check(now == State::Connecting,
                  "C01",
                  "keep-alive-accepted",
                  "responses that are not authentic (kind %d after %d) bring the connection back: %s",
                  b,
                  a,
                  pair.pub->stateText().c_str());
    }
    ctx.outcome(mc::mix(static_cast<uint64_t>(now), asked.size()));
    ctx.state(mc::mix(asked.size(), pair.pub->states.size()));
    pair.close();
}

} // namespace

namespace mc
{

void registerScenarios(bool thorough)
{
    env::quiet();
    SSL_library_init();
    const std::vector<std::string> p = { "C01" };
    add("bits", p, 0, 0, bitsScenario);
    add("pairs", p, 0, 0, pairsScenario, true);
    add("shapes", p, 0, 0, shapeScenario);
    add("credentials", p, 0, 0, credentialsScenario);
    add("sequences", p, 0, 0, sequencesScenario);
    add("produce", p, 0, 0, produceScenario);
    add("transactions", p, 0, 0, transactionsScenario);
    add("exchange", p, 0, 0, exchangeScenario);
    add("keep-alive", p, 0, 0, keepAliveScenario);
}

} // namespace mc
