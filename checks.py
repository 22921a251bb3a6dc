"""The checks: for each property, the harness that decides it."""

BASE = ["mc.cpp", "env.cpp"]


def H(name, note, **kw):
    d = {"harness": name, "sources": BASE + [name + ".cpp"], "note": note,
         "technique": "deviation-bounded exhaustive exploration of the real code against a reference model "
                      "(stateless model checking)"}
    d.update(kw)
    return d


JITTER = ("Every combination of up to 3 (thorough: 4) packet fates other than on-time arrival - lost, delayed by 5 to 130 ms, "
          "duplicated early or after the deadline, recovered over RTX - over short streams with different frame structures and "
          "counter wraps, every outage length around the buffer's thresholds, bursts over its capacity, and pauses of up to hours across "
          "the wrap of time stamps, on the real jitter "
          "buffer under a virtual clock. Assumes the bound: longer streams and other delays are not enumerated.")

SRTP = ("Two real connections for every SRTP profile, against an independent RFC 3711 / 7714 sender and an ideal receiver: every "
        "combination of payload, extension, padding, CSRC and index class; every arrival history of 5 to 8 packets with up to 2-3 "
        "(thorough 3-4) of 26 deviations (skips of 2 to 32000, late by 1 to 2048, replays, other streams, reconnects, forged packets) at "
        "7 places around the rollover; every bit flip and truncation; every sequence of 5 moves on the replay window. Assumes the "
        "bounds, and that OpenSSL primitives are right.")

PACKET = ("Publishing through the real packetizers, RTP serialization and parsing, depacketizers and jitter buffer: every codec x "
          "extension layout x padding x overhead x about 60 sizes around each fragmentation threshold, every combination of 2-3 (thorough "
          "2-4) unit sizes, and frames with parameter sets and SEI; and every packetization of small frames an independent packetizer "
          "can make (aggregates, fragments, AV1 elements split anywhere, VP8 and VP9 descriptor forms); streams of 66000 frames. Assumes the size grid: sizes "
          "between its points are not enumerated.")

PAYLOAD = ("Every byte string of up to 6 bytes (thorough 7-9) over 8 to 13 significant values per codec, as one payload or divided over up to "
           "three packets, through classification and extraction, fresh and after a key frame; every sequence of 3 (4) from 9 to 13 odd "
           "payloads x markers x timestamps through the jitter buffer; every such string as a bitstream through the parsers and packetizers, "
           "against reference parsers; structured VP9 descriptors cut anywhere; all under address and undefined-behaviour checking. Assumes the alphabets: other byte values are "
           "not enumerated.")

RTP = ("Real packets, extensions, time sources and containers against independent readers and writers: every combination of payload "
       "size, padding, extension, marker and field value from boundary sets, every CSRC count, every string of up to 6 (thorough 8) bytes "
       "over 8 or 9 significant values after the header and as an extension; every sequence of up to 3 (4) extension elements over 16 kinds; every cycle "
       "of 2 (3) frame intervals over hundreds (thousands) of frames; every sequence of 4 jumps and time gaps from 12 starts; every sequence of 7 (9) "
       "pool operations around page boundaries; every number of extension words, 140000 retransmissions; every sequence of 4 (5) writes and every division into reads. Assumes the boundary sets.")

FEEDBACK = ("The real responder against an independent decoder of its messages, and the real publisher against an independent encoder: every "
            "combination of up to 2-3 (thorough 3-4) of 30 deviations (gaps in numbers, times from 0 to 10 days, late packets, a process held up) over 13 "
            "arrivals, every sequence of 5 (6) of 12 steps in one report, every periodic stream over 8 intervals and 4 steps; every vector of up to 7 (9) statuses x "
            "base x packing, numbers spread over up to the whole window in one report, histories of 30 to 131080 packets x 14 bases x 14 counts, reference times around the wrap of their 24 bits, steady streams with every 0th to 10th packet lost, whose figures are known, every string of up to 5 (6) bytes of 10 values after a header. Assumes the "
            "bounds, no more than 500 numbers skipped at once, and fewer than 2000 packets between two reports.")

PACER = ("The real pacer, history and SRTP over a recorded socket, three tracks: every sequence of 4 (thorough 5) of 16 operations (frames of 1 to 7 packets with "
         "spreads of 0 to 66 ms, the loop's own sleep, other waits, a loop held up), and every combination of 2 (3) other operations than the loop's sleep in "
         "10; frames of 999 to 2001 packets spread over 1 or 2 ms. Assumes the bounds, and that a frame comes after a flush of its track, as the connection does.")

SCTP = ("Two real sessions, and one against an independent peer with or without its own handshake, over a simulated network with virtual time: every combination "
        "of 2 (thorough 3) fates (lost, 1, 35 or 400 ms late, twice) of the first 40 packets x 5 start orders; with messages of 0 to 2300 bytes every single fate of 7 in 60 "
        "packets and every 3 (4) of 4 fates in 32 (60), and every single loss or delay in 131072 and 262144 byte messages, and every message size around the fragment limits. One session against the harness: every sequence of "
        "5 (7) of 11 sends and acknowledgements, every order of up to 5 (6) fragments of 3 messages, every mutation and truncation of 14 packets and every type, size and length "
        "in 5 states, every forged cookie bit. Assumes the bounds and a network latency of 10 ms.")

SCTP_LINK = "-Wl,--wrap=_ZN4srtc15RandomGeneratorIjE4nextEv"

SIM_WRAPS = ["_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "_ZNSt6thread4joinEv",
             "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
             "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock",
             "pthread_rwlock_unlock",
             "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "pthread_cond_clockwait", "pthread_cond_timedwait",
             "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv",
             "socket", "fcntl", "close", "sendto", "recvfrom", "epoll_create", "epoll_create1", "epoll_ctl", "epoll_wait",
             "eventfd", "eventfd_read", "eventfd_write"]
SIM_LINK = " ".join("-Wl,--wrap=" + w for w in SIM_WRAPS)


def S(name, note, **kw):
    """A harness on the controlled scheduler and virtual network."""
    kw.setdefault("harness_flags", "-fno-access-control")
    return H(name, note, sources=BASE + ["sim.cpp", name + ".cpp"], extra_link=SIM_LINK, **kw)


def T(name, note, **kw):
    """As S, with the code under test instrumented by ThreadSanitizer: on every schedule explored, accesses that are not
    ordered by synchronization are reported."""
    kw.setdefault("harness_flags", "-fno-access-control")
    return H(name + "_tsan", note, sources=BASE + ["sim.cpp", name + ".cpp"], extra_link=SIM_LINK, flavor="tsan",
             harness_flavor="plain", lib_first=True, **kw)


E2E = ("Two real PeerConnection endpoints (their own threads, OpenSSL handshake, SRTP, SCTP) run on a controlled scheduler, "
       "virtual clock and virtual network. Every combination of up to the bound of datagram faults (lost, late enough to be "
       "overtaken, duplicated), at every datagram, is executed, for each configuration (DTLS role, media, data channels, "
       "retransmission, congestion feedback, candidates, outages); oracles are the published content and the event sequences. "
       "Threads are scheduled round robin here: interleavings are explored by C04 and C05.")

THREADS = ("The real scheduler classes with their real threads on a controlled scheduler and virtual clock: every sequence of up to 3 operations of one client, "
           "every pair of operations of two clients and of a scope's owner and its worker, under every interleaving with up to 2 (thorough 3) "
           "preemptions at synchronization points, against a model of which runs are allowed; for the loop scheduler every sequence of 4 to 6 (thorough one more) "
           "of submissions, updates, cancellations, waits and scope destructions, also from inside tasks, and every delay around the limits of the wait's type. The same "
           "schedules run again under ThreadSanitizer for accesses not ordered by synchronization. Assumes the bounds.")

API = ("Two real PeerConnection endpoints, with their own threads, on a controlled scheduler, virtual clock and virtual network: every pair of 11 kinds of public calls on "
       "two threads while datagrams of all kinds arrive, and closing (one thread, two threads, destruction, with another thread using it) at each of the first 40 datagrams, "
       "under every interleaving with up to 1 (thorough 2) preemptions at synchronization points; every kind of call from within every kind of listener. Each is run under AddressSanitizer "
       "and again under ThreadSanitizer, so that accesses not ordered by synchronization are found on every schedule explored. Assumes the bound, and OpenSSL's own locking.")

ICE = ("The real message code of the agent, in buffers of exactly the right size under AddressSanitizer, on every byte change (quick: every bit) and cut of representative messages, "
       "every wrong length, every missing, exchanged, doubled, added or retyped attribute, with the sums left or made right again, every sequence of up to 4 (thorough 5) attributes of 16 kinds, "
       "every pair of credentials of 13 by 12 and 10 by 10 kinds, and every history of 5 (7) transactions; the oracle is an independent builder and checker of such messages. Then a real PeerConnection on the virtual network "
       "with the other side played by the harness: every history of 3 (4) moves of 10 kinds (good and bad requests and responses), and every pair of 10 ways of answering the keep-alive. Assumes HMAC-SHA1 of OpenSSL.")

HOSTILE = ("Two real PeerConnection endpoints on the virtual network, with media and data channels in both directions: at every datagram of the session (bound: 1, thorough 2) every one of 12 attacks is executed "
           "- every byte changed in three ways, every cut, extensions, reflection, other sources, every first byte, repetition, the handshake's datagrams again and changed, empty datagrams - and everything published has to be delivered, "
           "in unchanged states; then the same attacks when nothing authentic arrives any more, which must not keep the connection or deliver anything. Assumes the strength of the ciphers, and OpenSSL.")

SDP = ("The real offer and answer code, under AddressSanitizer, against an independent reader of session descriptions: every configuration of up to 3 (thorough 4) media of 15 kinds with every combination of options; "
       "for six offers every answer that differs from full acceptance in up to 3 (4) respects (sections, codecs, retransmission, feedback, extensions, layers, streams, selector); every answer with a line missing, doubled, "
       "moved anywhere, cut off anywhere, or a word replaced by one of 49 (thorough: two lines missing, doubled or moved), each then used for a connection. Assumes the random stream identifiers differ.")

REPORTS = ("A real PeerConnection on the virtual network, with the other side (connectivity checks, DTLS through OpenSSL, RTP and RTCP) played by the harness, under AddressSanitizer. M09: every request list over 8 first numbers, 6 masks, "
           "every stream, doubled and repeated, with and without retransmission format, layers and congestion feedback, after media and in the middle of it; 700 and 3000 (thorough 66000) packets with requests around the limit of what is remembered. "
           "M14: every compound of up to 3 packets over boundary sizes and fields, strings of up to 30 bytes over significant values and every byte change and cut of a compound against an independent reader, all subsets of 16 offsets as request lists, "
           "and 9 kinds of packets changed in 7 ways over the wire, after which media still have to flow. M16: every history of 2 (3) periods of sends and requests, of 2 echoes of reports (7 kinds, 4 delays, 2 to 3 waits), of 4 (5) arrival patterns of 8 kinds, of 3 (4) extended reports from up to 132 receivers, and quiet periods, "
           "against the datagrams counted at the other side. Assumes the bounds; the wire's delay is constant.")

ALIVE = ("Two endpoints on the virtual network for every blackout (start, length, direction, traffic, role), and one endpoint with the other side played by the harness: every pair of ways to show that it is there "
         "(answers to the checks, late ones, media, reports, data, 1 to 4.8 s apart) with media sent every 0 to 3.1 s; every history of 2 (thorough 3) silences of 3 lengths, each ended in one of 5 ways, and one that does not end.")

MEDIA = ("A real PeerConnection on the virtual network, with the other side (connectivity checks, DTLS, SRTP, RTCP) played by the harness. Received: every combination of up to 1 to 2 (thorough 2 to 3) "
         "fates of 8 kinds (lost, late, overtaken, twice, recovered, foreign, damaged) of the packets of two streams, start, wraps and configurations varied; what comes out, is asked for and is reported is compared "
         "with what arrived when. Sent: every sequence of 3 (4) of 10 operations (frames of several sizes on several tracks and layers, waits, requests, feedback), for each kind of session, against what is on the wire and when.")

CHECKS = {
    "M09": S("reports", REPORTS, more=[H("pacer", PACER, harness_flags="-fno-access-control")]),
    "M14": S("reports", REPORTS),
    "M16": S("reports", REPORTS, more=[H("pacer", PACER, harness_flags="-fno-access-control")]),
    "C08": S("sdp", SDP),
    "C10": S("hostile", HOSTILE),
    "C01": S("ice", ICE),
    "C04": S("api", API, more=[T("api", API)]),
    "C06": S("sched", THREADS),
    "C05": S("sched", THREADS, more=[T("sched", THREADS)]),
    "M01": H("jitter", JITTER, more=[S("media", MEDIA)]),
    "M02": H("jitter", JITTER, more=[S("media", MEDIA)]),
    "M03": H("jitter", JITTER, more=[S("media", MEDIA)]),
    "S01": H("srtp", SRTP),
    "S02": H("srtp", SRTP),
    "S03": H("srtp", SRTP),
    "S05": H("srtp", SRTP),
    "M04": H("packet", PACKET),
    "M05": H("packet", PACKET, more=[S("media", MEDIA)]),
    "M06": H("payload", PAYLOAD),
    "M17": H("payload", PAYLOAD),
    "M07": H("rtp", RTP),
    "M08": H("rtp", RTP),
    "M13": H("rtp", RTP, more=[S("media", MEDIA)]),
    "M15": H("rtp", RTP),
    "U01": H("rtp", RTP),
    "U02": H("rtp", RTP),
    "M10": H("pacer", PACER, harness_flags="-fno-access-control", more=[S("media", MEDIA)]),
    "M11": H("feedback", FEEDBACK, harness_flags="-fno-access-control", more=[S("media", MEDIA)]),
    "M12": H("feedback", FEEDBACK, harness_flags="-fno-access-control", more=[S("media", MEDIA)]),
    "D01": H("sctp", SCTP, flavor="plain", extra_link=SCTP_LINK),
    "D02": H("sctp", SCTP, flavor="plain", extra_link=SCTP_LINK),
    "D03": H("sctp", SCTP, flavor="plain", extra_link=SCTP_LINK),
    "D04": H("sctp", SCTP, flavor="plain", extra_link=SCTP_LINK),
    "D05": H("sctp", SCTP, extra_link=SCTP_LINK),
    "D06": H("sctp", SCTP, extra_link=SCTP_LINK),
    "C02": S("e2e", E2E, flavor="plain"),
    "C03": S("e2e", E2E, flavor="plain"),
    "C07": S("e2e", E2E, flavor="plain"),
    "C09": S("e2e", E2E, flavor="plain", more=[S("alive", ALIVE)]),
    "S04": S("e2e", E2E, flavor="plain"),
}

NOT_APPLICABLE = {
}
