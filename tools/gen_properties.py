#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe or [], "hook_needed": hook}})

# ------------------------------------------------------------------ SRTP
prop("S01", "Protected media decrypts to exactly what was sent, across rollover",
 "For every negotiated SRTP profile, an RTP packet protected by one side and first delivered to the other side no more than about a thousand packets late or a few hundred ahead is accepted and yields byte-for-byte the packet that was sent. This holds for every payload size, header extension and padding, and across any number of 16-bit sequence number rollovers, whatever the loss and reordering around them. It also holds for several streams (SSRCs) interleaved on one connection and after a connection is lost and restored with the same keys.",
 ["histories", "inputs", "configurations"],
 "every SRTP profile x payload-size/extension class x arrival history (loss, reorder, duplication) of bounded length placed at every alignment to the sequence rollover",
 "No test touches srtp_connection or srtp_crypto at all; rollover needs 65536 packets and the failing cases are specific reorderings around it.",
 ["src/srtp_connection.cpp", "src/srtp_crypto.cpp", "src/srtp_util.cpp", "src/srtp_hmac_sha1.cpp", "src/replay_protection.cpp", "src/rtp_packet_source.cpp"],
 [("rollover counter estimation", "srtp_connection.cpp"), ("cipher and authentication", "srtp_crypto.cpp"), ("key derivation", "srtp_util.cpp")],
 ["SrtpConnection::protectSendMedia / unprotectReceiveMedia"], [("per-SSRC ROC and last sequence", "packet index estimate", "srtp_connection.cpp")])
prop("S02", "Altered or forged SRTP and SRTCP is rejected and leaves no trace",
 "An RTP or RTCP packet that differs in any bit from one the peer protected (header, extension, payload, index, tag, or length) is never accepted. Processing any number of such packets does not change whether, or to what, later genuine packets are decrypted.",
 ["inputs", "histories", "fault_sequences"],
 "every single-byte corruption and truncation of representative packets of every profile, and every bounded history mixing forged and genuine packets, including forged sequence numbers on both sides of a rollover",
 "Tests never feed a bad packet to the SRTP layer; the interesting part is state left behind by rejected packets.",
 ["src/srtp_connection.cpp", "src/srtp_crypto.cpp", "src/replay_protection.cpp"],
 [("tag verification before use", "srtp_crypto.cpp"), ("state commit after authentication", "srtp_connection.cpp")],
 ["SrtpConnection::unprotectReceiveMedia / unprotectReceiveControl"])
prop("S03", "No SRTP or SRTCP packet is accepted twice; fresh ones are not refused",
 "A protected packet is accepted at most once, whatever the order of arrival, duplicates or interleaved streams. A packet that was never accepted before and is not older than the replay window behind the newest accepted one is accepted, whatever order the packets around it took, including across sequence number wrap-around.",
 ["histories", "schedules"],
 "every arrival sequence (with repetition) of bounded length over sequence numbers clustered at window edges and wrap-around, compared with an explicit-set reference of the replay window",
 "test_replay_protection walks a few hand-picked sequences; it never mixes wrap-around with late packets.",
 ["src/replay_protection.cpp", "src/srtp_connection.cpp"],
 [("sliding bitmap", "replay_protection.cpp"), ("per-SSRC instances", "srtp_connection.cpp")],
 ["ReplayProtection::canProceed/set", "SrtpConnection::unprotect*"])
prop("S04", "The sender never reuses an SRTP or SRTCP packet index under one key",
 "Within one connection no two different RTP packets leave with the same SSRC and 48-bit packet index, and no two different RTCP packets leave with the same SSRC and SRTCP index, so that no encryption nonce is used twice under a key. This covers media, retransmission streams, feedback for any number of tracks, rollovers and reconnects.",
 ["histories", "configurations"],
 "every bounded interleaving of send operations (media on several tracks, retransmissions, receiver/sender reports, key frame requests, negative acknowledgements, transport feedback) including the sequence number wrap, recording (SSRC, index) of everything put on the wire",
 "Nothing in the tests looks at what goes on the wire from two tracks together; nonce reuse has no functional symptom.",
 ["src/peer_candidate.cpp", "src/rtp_packet_source.cpp", "src/rtcp_packet_source.cpp", "src/srtp_connection.cpp", "src/srtp_crypto.cpp", "src/track.cpp"],
 [("sequence and rollover source", "rtp_packet_source.cpp"), ("RTCP index source", "rtcp_packet_source.cpp")],
 ["datagrams handed to the socket"])
prop("S05", "Protected RTCP decrypts to exactly what was sent",
 "For every SRTP profile, an RTCP packet (single or compound) protected by one side is accepted once by the other side and yields exactly the bytes that were sent, whatever other control packets of that sender were lost, duplicated or reordered within the replay window. Indices of different senders do not interfere.",
 ["histories", "inputs", "configurations"],
 "every profile x RTCP payload size class x bounded arrival history over one or two senders",
 "SRTCP protection is not exercised by any test.",
 ["src/srtp_connection.cpp", "src/srtp_crypto.cpp", "src/rtcp_packet.cpp", "src/rtcp_packet_source.cpp"],
 [("SRTCP index and E bit", "srtp_connection.cpp"), ("cipher", "srtp_crypto.cpp")],
 ["SrtpConnection::protectSendControl / unprotectReceiveControl"])

# ------------------------------------------------------------------ media
prop("M01", "Received frames come out complete, in order and at most once",
 "Whatever the order, loss, duplication and timing of packet arrival, each frame handed to the application consists of exactly the packets of one sent frame in order and carries its time stamp, marker and capture time, no frame is handed out twice, and frames come out in the order they were sent. A frame with a missing packet is never handed out.",
 ["schedules", "histories", "fault_sequences"],
 "every arrival order of bounded streams of single- and multi-packet frames with losses, duplicates (including retransmitted copies after delivery), sequence/timestamp wrap and every interleaving with the dequeue clock",
 "There is no jitter buffer test; correctness depends on arrival order and time together.",
 ["src/jitter_buffer.cpp", "include/srtc/jitter_buffer.h", "src/extended_value.cpp"],
 [("frame assembly", "jitter_buffer.cpp"), ("sequence extension", "extended_value.cpp")],
 ["JitterBuffer::processDeque"])
prop("M02", "A frame whose packets all arrive in time is always delivered",
 "If all packets of a frame reach the receiver before its playout deadline, the frame is delivered no later than its deadline plus one polling period, however the packets of that and neighbouring frames were reordered, duplicated or lost. In particular a lost packet, a burst, a late or an out-of-order first packet never stalls the stream, and the buffer never grows beyond its capacity.",
 ["schedules", "histories", "fault_sequences"],
 "same space as M01 plus reordering at stream start, bursts around the buffer capacity and gaps larger than it",
 "A stall shows only for particular orders of arrival against the clock; no test runs the buffer.",
 ["src/jitter_buffer.cpp"], [("dequeue deadline", "jitter_buffer.cpp"), ("capacity handling", "jitter_buffer.cpp")],
 ["JitterBuffer::consume / processDeque / getTimeoutMillis"])
prop("M03", "Retransmission is requested exactly for packets that are missing",
 "A receiver asks for retransmission only of packets that lie between received ones, have not been received and can still be used; every such gap is asked for once its delay has passed and before it is given up. A packet is never asked for after it has arrived, nor without bound, and the request list put on the wire names exactly those packets.",
 ["schedules", "histories", "inputs"],
 "every bounded arrival history against the nack clock, and every set of missing sequence numbers (clustered around 16-packet blocks and wrap-around) through list compression and decompression",
 "test_publish_nack covers the compression of four hand-written lists; the generation of requests is untested.",
 ["src/jitter_buffer.cpp", "src/util.cpp", "src/peer_candidate.cpp"],
 [("nack timing", "jitter_buffer.cpp"), ("compressNackList", "util.cpp")], ["JitterBuffer::processNack", "compressNackList"])
prop("M04", "A frame published on one side is rebuilt unchanged on the other",
 "For every supported codec, packetizing any well-formed encoded frame and depacketizing the resulting packets yields a frame with the same coded units in the same order and the same bytes, once the stream has started with a key frame. This holds for every size relative to the packet limit (for Opus, every frame that fits a packet), every combination of unit sizes, header extensions and padding; H.264 and H.265 parameter sets are repeated ahead of every key frame. Frames packetized by another implementation as the codec's RTP payload specification allows are rebuilt likewise, one frame for each frame sent.",
 ["inputs", "configurations"],
 "every codec x unit-count and unit-size combination from a grid around the fragmentation thresholds x extension/padding configuration x payload patterns",
 "test_packetizer_h264 checks a handful of H.264 cases one way; the depacketizers and the other five codecs have no test.",
 ["src/packetizer_h264.cpp", "src/packetizer_h265.cpp", "src/packetizer_vp8.cpp", "src/packetizer_vp9.cpp", "src/packetizer_av1.cpp", "src/packetizer_opus.cpp", "src/depacketizer_h264.cpp", "src/depacketizer_h265.cpp", "src/depacketizer_vp8.cpp", "src/depacketizer_vp9.cpp", "src/depacketizer_av1.cpp", "src/depacketizer_opus.cpp", "src/codec_h264.cpp", "src/codec_h265.cpp", "src/codec_av1.cpp", "src/codec_vp9.cpp"],
 [("fragmentation and aggregation", "packetizer_*.cpp"), ("reassembly", "depacketizer_*.cpp")],
 ["Packetizer::generate", "Depacketizer::extract"])
prop("M05", "Packets of a published frame have a sound shape",
 "All packets generated for one frame carry one timestamp and consecutive sequence numbers; for video only the last carries the marker, and the first (and only the first, an access unit delimiter aside) is recognised as a frame start; and no protected packet exceeds the packet size limit. Every packet carries the header extensions that were requested for it, and the flags in its payload tell the start and end of frames and units as the codec's payload specification says. Sequence numbers, and the picture identifiers of VP9, go on by one from packet to packet and frame to frame, and start over only at the end of their 16 and 15 bits.",
 ["inputs", "configurations"],
 "same space as M04, observed on the packets instead of the rebuilt frame",
 "Only H.264 single-NALU cases are checked; limits are crossed only at specific sizes and extension lengths.",
 ["src/packetizer.cpp", "src/packetizer_video.cpp", "src/packetizer_av1.cpp", "src/packetizer_h264.cpp", "src/packetizer_h265.cpp", "src/packetizer_vp8.cpp", "src/packetizer_vp9.cpp", "src/rtp_packet_source.cpp"],
 [("packet size accounting", "packetizer_video.cpp"), ("extension building", "packetizer.cpp")], ["Packetizer::generate", "RtpPacket::generate"])
prop("M06", "No received media payload can crash or hang a depacketizer",
 "For every codec, any sequence of packet payloads a peer can send is handled without reading or writing outside the payload, aborting, throwing or looping, both when packets are classified and when frames are extracted. The output never contains bytes that were not received.",
 ["inputs", "histories"],
 "every payload up to a bounded length over an alphabet of structurally significant bytes, alone and in sequences of up to three packets, for every codec, under address and undefined-behaviour checking",
 "No test feeds malformed payloads; memory errors need specific short or truncated inputs.",
 ["src/depacketizer_h264.cpp", "src/depacketizer_h265.cpp", "src/depacketizer_vp8.cpp", "src/depacketizer_vp9.cpp", "src/depacketizer_av1.cpp", "src/depacketizer_opus.cpp", "src/codec_vp9.cpp", "src/byte_buffer.cpp", "src/bit_reader.cpp"],
 [("bounds checks before each read", "depacketizer_*.cpp")], ["Depacketizer::getPacketKind / extract"])
prop("M07", "RTP packets survive serialization, parsing and retransmission wrapping",
 "Serializing any RTP packet and parsing the bytes gives back the same header fields, extension, padding and payload, and a retransmission-format packet unwraps to the original sequence number and payload; the retransmission stream has consecutive sequence numbers and a roll-over count of its own. Parsing arbitrary bytes never reads out of bounds and either fails or yields a payload contained in the input.",
 ["inputs"],
 "every combination of payload size, padding, extension size/kind, marker and field values from boundary sets; every short byte string over significant values as parser input",
 "test_rtp_packet serializes one packet; parse and RTX are not tested.",
 ["src/rtp_packet.cpp", "src/rtp_extension.cpp"], [("generate", "rtp_packet.cpp"), ("fromUdpPacket / RTX", "rtp_packet.cpp")],
 ["RtpPacket::generate / generateRtx / fromUdpPacket"])
prop("M08", "RTP timestamps track presentation time without drift",
 "The RTP timestamp given to a frame differs from that of an earlier frame by the difference of their presentation times in clock units, to within one unit, no matter how many frames lie in between or how irregular their spacing, modulo 2^32.",
 ["histories", "inputs"],
 "every bounded sequence of frame intervals from a boundary set, repeated periodically over long histories, for every clock rate",
 "Accumulated error is invisible in a short test; no test covers the time source.",
 ["src/rtp_time_source.cpp"], [("timestamp computation", "rtp_time_source.cpp")], ["RtpTimeSource::getFrameTimestamp"])
prop("M09", "A negatively acknowledged packet is resent faithfully while in history",
 "When the peer reports a packet as missing and it is among the packets most recently sent on its track, exactly that packet is resent with its original payload and timestamp (in retransmission format when negotiated, as the original sequence number otherwise). At least the last 512 packets of a stream are remembered. Packets never sent or no longer remembered cause nothing to be sent.",
 ["histories", "inputs"],
 "every bounded sequence of sends (with sequence wrap and history overflow) followed by every request list from a boundary set, at the level of the history and of the wire",
 "There is no test of the send history or of NACK handling.",
 ["src/send_rtp_history.cpp", "src/peer_candidate.cpp", "src/rtp_packet.cpp"], [("history ring", "send_rtp_history.cpp"), ("NACK processing", "peer_candidate.cpp")],
 ["SendRtpHistory::save/find", "datagrams handed to the socket"])
prop("M10", "Pacing keeps order, loses nothing and respects the spread",
 "Every packet given to the pacer is sent exactly once and, per track, in the order given; pacing delays a packet by no more than the requested spread plus one polling period, sends none before its turn (an even share of the spread) unless a later frame of its track is waiting, and a flush or a later frame never overtakes or drops earlier packets.",
 ["schedules", "histories"],
 "every bounded interleaving of frame submissions on two tracks, flushes, and clock advances",
 "The pacer has no test; order bugs need two overlapping frames.",
 ["src/send_pacer.cpp"], [("queue ordering", "send_pacer.cpp")], ["datagrams handed to the socket", "SendPacer::run/flush/getTimeoutMillis"])
prop("M11", "Transport-wide feedback reports what was received and when",
 "Decoding the feedback a subscriber generates (with an independent decoder) yields, for every packet it covers, the correct received / not-received status, and for received ones the arrival time within 250 microseconds per feedback message resolution. Every packet received between two reports is covered exactly once (unless more than five hundred numbers are skipped at once), and generation always terminates within the message size limit.",
 ["histories", "inputs"],
 "every bounded arrival history over boundary gaps in sequence number and arrival time (including chunk-size boundaries, reordering, wrap, large gaps), decoded by a reference decoder written from the draft",
 "test_twcc_responder runs a few random histories through the same code's counterpart and tolerates time error.",
 ["src/twcc_subscribe.cpp", "src/rtp_responder_twcc.cpp"], [("status chunks and deltas", "twcc_subscribe.cpp")], ["SubscribePacketHistory::saveIncomingPacket/generate"])
prop("M12", "The publisher interprets transport-wide feedback correctly and safely",
 "For any well-formed feedback message, each packet still in the send history gets exactly the status and arrival time the message states, regardless of wrap-around, of how symbols are packed into chunks and of packets no longer in history. Any byte string presented as feedback is handled without memory errors, and loss and bandwidth figures stay within their ranges; for a steady stream they tell the share that was lost and the rate at which the rest was received.",
 ["inputs", "histories"],
 "every bounded feedback message over all chunk encodings and boundary counts and deltas against every alignment to history start, end and wrap; every short byte string over significant values",
 "The parser is exercised only by messages produced by this library's own generator.",
 ["src/rtp_extension_source_twcc.cpp", "src/twcc_publish.cpp"], [("feedback parsing", "rtp_extension_source_twcc.cpp"), ("history ring", "twcc_publish.cpp")],
 ["RtpExtensionSourceTWCC::onReceivedRtcpPacket", "PublishPacketHistory"])
prop("M13", "RTP header extensions are found exactly as they were written",
 "Whatever set of elements is put in a packet's header extension, looking each up after a serialize/parse round trip gives exactly its value, and ids that were not written are not found; replacing a value leaves every other element unchanged. Every key frame of a simulcast layer, also a late one, names the layer and describes all of them. One- and two-byte formats from a peer are both understood, with padding anywhere, and malformed extension data never causes an out-of-bounds read.",
 ["inputs"],
 "every sequence of up to four elements over boundary ids and lengths, in both formats, with padding at every position; every short byte string over significant values",
 "test_extension covers three fixed layouts.",
 ["src/rtp_extension.cpp", "src/rtp_extension_builder.cpp", "src/rtp_packet.cpp", "src/rtp_extension_source_simulcast.cpp", "src/util.cpp"],
 [("element iteration", "rtp_extension.cpp"), ("builder", "rtp_extension_builder.cpp")], ["RtpExtensionBuilder", "RtpExtension::find*"])
prop("M14", "RTCP packets survive the wire; hostile RTCP is harmless",
 "Serializing RTCP packets, alone or as a compound, and parsing the bytes gives back the same packets in order. Any byte string that arrives as (decrypted) RTCP is processed without memory error, abort, unbounded allocation or loop, and well-formed packets in a compound before a malformed one are not misread.",
 ["inputs"],
 "every compound of up to three packets over boundary sizes; every byte string up to a bounded length over significant values, and truncations/length-field corruptions of well-formed ones",
 "RTCP parsing has no test.",
 ["src/rtcp_packet.cpp", "src/rtcp_packet_multi.cpp", "src/peer_candidate.cpp"], [("fromUdpPacket", "rtcp_packet.cpp")], ["RtcpPacket::generate / fromUdpPacket"])
prop("M15", "Wrapped counters are extended consistently",
 "Feeding any stream of 16- or 32-bit counter values whose successive jumps are small relative to the range, forwards or back, yields extended values that differ by exactly the true differences, through any number of wraps and whatever the time between values.",
 ["histories", "inputs"],
 "every bounded sequence of jumps from a boundary set starting at every alignment to the wrap, with every assignment of time gaps from a boundary set, against exact arithmetic",
 "test_extended_value checks straight-line increments and one or two reorderings.",
 ["src/extended_value.cpp"], [("wrap detection", "extended_value.cpp")], ["ExtendedValue<uint16_t/uint32_t>::extend"])
prop("M16", "Reception statistics and round-trip times are right",
 "Packet and byte counts reported for a track, to the application and to the peer, equal the datagrams of that track that were actually sent or received (retransmissions included, as they are on the wire); frame counts equal the frames sent or delivered; the loss figure counts each packet that was missing when it was due once. Receiver reports give the highest sequence number received and echo the last sender report with the delay since it; sender reports pair both clocks at the same instant. A round-trip time is reported only for an echo of a report that was really sent, as the elapsed time minus the delay the peer states. A receiver which asks the publisher for its time (extended reports) is answered once, with the time it gave and the delay since. Values never go negative and unmatched or repeated echoes are ignored.",
 ["histories", "inputs"],
 "every bounded history of reports, echoes (fresh, stale, unknown, repeated) and time steps; every bounded arrival history for the counts",
 "No test covers statistics or report handling.",
 ["src/track_stats.cpp", "src/sender_reports_history.cpp", "src/receiver_reference_time_reports_history.cpp", "src/peer_candidate.cpp"],
 [("report histories", "sender_reports_history.cpp"), ("stats", "track_stats.cpp")], ["TrackStats", "SenderReportsHistory", "ReceiverReferenceTimeReportsHistory"])
prop("M17", "Codec bitstream parsers never read outside the frame",
 "Splitting any byte string into H.264, H.265 or AV1 units, testing it for key frames, or reading its header fields never reads outside the buffer and always terminates, and for well-formed input yields exactly the units that were joined to make it, whichever start code or size encoding was used.",
 ["inputs"],
 "every byte string up to a bounded length over significant values, and every sequence of up to three well-formed units with each start-code/size form",
 "Tests parse one well-formed stream each.",
 ["src/codec_h264.cpp", "src/codec_h265.cpp", "src/codec_av1.cpp", "src/codec_vp9.cpp", "src/bit_reader.cpp", "src/byte_buffer.cpp"],
 [("NaluParser", "codec_h264.cpp, codec_h265.cpp"), ("ObuParser", "codec_av1.cpp")], ["NaluParser", "ObuParser", "vp9::parsePayloadDescriptor"])

# ------------------------------------------------------------------ data channels
prop("D01", "Data channel messages arrive exactly once, in order and intact",
 "Every message accepted for sending on an ordered channel is delivered to the peer's application exactly once, unmodified and in the order it was sent, as long as the network eventually delivers retransmissions. This holds for any loss, duplication and reordering of the packets in either direction, and for messages of any size up to the limit, empty ones included.",
 ["schedules", "fault_sequences", "histories"],
 "every combination of up to a bounded number of network faults (drop, duplicate, delay past later packets) at every position of the packet exchange between two real endpoints, for driver scenarios with several channels and single/multi-fragment messages in both directions",
 "test_sctp_session does not exist; the receive-buffer test feeds fragments in order only.",
 ["src/sctp/sctp_session.cpp", "src/sctp/data_channel_receive_buffer.cpp", "src/sctp/sctp_packet_builder.cpp", "src/sctp/sctp_packet.cpp"],
 [("TSN tracking, SACK, T3 retransmission", "sctp_session.cpp"), ("fragment reassembly and ordering", "data_channel_receive_buffer.cpp")],
 ["SctpSessionListener callbacks of both endpoints"])
prop("D02", "The data channel association and channels open despite packet loss",
 "Two endpoints reach the established state and every configured channel is reported open exactly once on each side, whatever bounded number of handshake packets is lost, duplicated or delayed, whichever side starts first. Nothing is delivered or reported open before the association is established, and repeated handshake packets do not disturb an established association.",
 ["schedules", "fault_sequences"],
 "every combination of up to a bounded number of faults at every position of the handshake and channel-open exchange, for client/server and simultaneous start",
 "No test performs the SCTP handshake.",
 ["src/sctp/sctp_session.cpp"], [("INIT/COOKIE state machine and T1 timer", "sctp_session.cpp"), ("DCEP open/ack", "sctp_session.cpp")],
 ["SctpSessionListener callbacks"])
prop("D03", "Fragments and messages are reassembled whatever order they arrive in",
 "Whatever the order in which the fragments of the messages of a channel arrive, an ordered channel delivers the complete messages in sending order and an unordered channel delivers each complete message once, each with exactly its bytes and kind. Nothing incomplete or mixed is ever delivered.",
 ["schedules", "histories"],
 "every permutation of the fragments of up to three messages (up to three fragments each), ordered and unordered, including stream sequence wrap, at session level with real data chunks",
 "test_data_channel_receive_buffer only feeds fragments in order.",
 ["src/sctp/data_channel_receive_buffer.cpp", "src/sctp/sctp_session.cpp"], [("receive buffer", "data_channel_receive_buffer.cpp")],
 ["onSctpDataChannelText/Binary"])
prop("D04", "Sending respects the peer's window and always makes progress",
 "The amount of unacknowledged data in flight never exceeds the window the peer last advertised (beyond one chunk needed to probe a closed window), and data accepted for sending is eventually sent whenever the peer acknowledges data or reopens its window, in whatever order acknowledgements, window updates and sends occur. Sending resumes in the order messages were accepted.",
 ["schedules", "histories"],
 "every bounded sequence of sends (fitting and exceeding the window) and peer acknowledgements with every window value from a boundary set, including window updates without new acknowledgement",
 "Flow control is not tested; a stall needs a window update that acknowledges nothing new.",
 ["src/sctp/sctp_session.cpp"], [("flight size and pending queue", "sctp_session.cpp")], ["packets emitted by the session"])
prop("D05", "No received data-channel packet can crash or corrupt the endpoint",
 "Any byte string received on the data channel transport is handled without memory error, abort, unbounded allocation or loop, in every state of the association. A packet with a wrong checksum or verification tag has no effect.",
 ["inputs", "histories"],
 "every well-formed chunk with every length-field, count and truncation mutation, every short byte string with valid checksum over significant values, in every reachable association state; wrong-tag and wrong-checksum copies of state-changing packets",
 "Tests cover the CRC function only.",
 ["src/sctp/sctp_session.cpp", "src/sctp/sctp_packet.cpp", "src/sctp/sctp_crc32.cpp"], [("packet parse and validation", "sctp_packet.cpp")], ["SctpSession::onReceive..."])
prop("D06", "The data channel endpoint speaks its protocol correctly to its peer",
 "Every packet sent is well formed, has the right ports and checksum and fits a network packet. An INIT is answered with a cookie which is accepted when returned within its lifetime and which nobody can forge, a repeated handshake does not disturb an established association, a heartbeat is answered with the same information, every data chunk is acknowledged (what is ahead of a gap in blocks that are in order), and a stream reset is answered, closes the channel once and lets the stream be used again; a channel is reported closed only after it was reported open, and once. Any packet with a correct checksum is accepted.",
 ["inputs", "histories"],
 "every request in every association state: every bit and length of a forged cookie, its age on both sides of the lifetime, heartbeats of every size up to 70, every combination of streams and repetitions of resets; packets with every byte value at every position modulo 16 for a set of sizes; every packet sent in the fault scenarios of D01",
 "No test sends or receives an SCTP packet; the checksum test uses a handful of inputs which miss most table entries.",
 ["src/sctp/sctp_session.cpp", "src/sctp/sctp_packet_builder.cpp", "src/sctp/sctp_packet.cpp", "src/sctp/sctp_crc32.cpp"],
 [("INIT / COOKIE / HEARTBEAT / RE-CONFIG handling", "sctp_session.cpp"), ("packet serialization and checksum", "sctp_packet_builder.cpp, sctp_crc32.cpp")],
 ["packets emitted by the session", "SctpSessionListener callbacks"])

# ------------------------------------------------------------------ connection
prop("C01", "Only authenticated connectivity checks are acted upon",
 "A connectivity check request or response is accepted only if its fingerprint and message integrity verify under the negotiated credentials, its user name is the expected one, and (for responses) it answers an outstanding request; any bit changed anywhere under protection makes it rejected. Messages this library produces are accepted by a peer with matching credentials and by no other, and no received byte string causes an out-of-bounds access.",
 ["inputs", "histories"],
 "every single-byte change, truncation and attribute-length corruption of representative messages, every credential mismatch class, every bounded history of requests and (fresh, repeated, expired, unknown) responses; every short byte string over significant values",
 "There is no STUN or ICE test.",
 ["src/ice_agent.cpp", "src/stun/stunmessage.cpp", "src/stun/stunhmac.cpp", "src/stun/stuncrc32.cpp", "src/peer_candidate.cpp"],
 [("verifyRequestMessage / verifyResponseMessage", "ice_agent.cpp"), ("buffer validation", "stunmessage.cpp")], ["IceAgent", "PeerConnection state callbacks"])
prop("C02", "A connection reaches Connected despite packet loss, and reports states legally",
 "Two compatible endpoints whose network loses, duplicates or reorders a bounded number of packets both reach the Connected state within the connect timeout, and the sequence of states reported to the application is always a legal path (connecting, connected, then failed or closed; nothing after closed; no repeats). If nothing is reachable the connection is reported Failed once, in bounded time.",
 ["schedules", "fault_sequences"],
 "two complete connection stacks on a virtual network and clock: every single fault (and pairs in the thorough tier) at every packet of the connection exchange, plus full blackouts",
 "No test creates a PeerConnection.",
 ["src/peer_connection.cpp", "src/peer_candidate.cpp", "src/ice_agent.cpp", "src/scheduler.cpp"], [("candidate state machine", "peer_candidate.cpp"), ("connection state", "peer_connection.cpp")],
 ["PeerConnection listeners"])
prop("C03", "Published media and data reach the subscriber end to end under faults",
 "On an established connection every audio packet, every video frame and every data channel message published by one endpoint is delivered unchanged, in order and once by the other endpoint, when the network loses, duplicates or reorders a bounded number of datagrams that retransmission can repair in time.",
 ["schedules", "fault_sequences"],
 "two complete connection stacks on a virtual network and clock: every single fault at every datagram of a bounded session for each codec and channel configuration",
 "Only isolated components are unit-tested; nothing runs publisher to subscriber.",
 ["src/peer_connection.cpp", "src/peer_candidate.cpp", "src/jitter_buffer.cpp", "src/send_pacer.cpp", "src/srtp_connection.cpp"],
 [("media and data paths", "peer_candidate.cpp")], ["PeerConnection frame / data callbacks"])
prop("C04", "API calls and close are safe at any time against the network thread",
 "Whatever the interleaving between application threads calling the public interface (publishing, reading statistics or tracks, sending data, setting listeners, logging, closing) and the connection's own thread, there is no data race, use after free or deadlock, also when the calls are made from within a listener; and once close has returned on a thread of the application, no callback is made and no thread remains, whoever else is closing the connection.",
 ["schedules"],
 "all interleavings up to a preemption bound of one or two application threads with the network thread under a controlled scheduler, with happens-before race detection on every memory access of the library, for each driver scenario",
 "Unit tests are single-threaded and never construct a connection.",
 ["src/peer_connection.cpp", "include/srtc/peer_connection.h"], [("mMutex-guarded state shared with the loop thread", "peer_connection.cpp")], ["process outcome, race reports, callbacks"])
prop("C05", "Thread scheduler tasks run once, on time, and never after cancel returns",
 "A task submitted to the thread-backed scheduler runs exactly once, not before its time, and tasks with different due times run in that order, unless it is cancelled; once cancel has returned the task is not running and will never run, and destroying the scheduler neither hangs nor runs anything afterwards. This holds for every interleaving of submitting, updating, cancelling and destroying with the worker thread.",
 ["schedules"],
 "all interleavings up to a preemption bound of one or two client threads (submit, update, cancel, destroy) with the worker thread under a controlled scheduler and virtual clock",
 "There is no scheduler test, and one run samples one interleaving.",
 ["src/scheduler.cpp", "include/srtc/scheduler.h"], [("ThreadScheduler queue and condition variable", "scheduler.cpp")], ["task bodies"])
prop("C06", "Loop and scoped scheduler timers fire in order and stop when cancelled",
 "A task submitted to the event-loop scheduler, directly or through a scope, fires exactly once at the first run at or after its due time and in due-time order (submission order for equal times); rescheduling moves it, cancelling it or destroying its scope prevents it, and the reported wait ends no later than the next task's due time, and less than a millisecond before it. Tasks may submit, cancel or reschedule other tasks, themselves included, while running.",
 ["histories", "schedules"],
 "every operation sequence up to a bounded depth (submit with boundary delays, cancel, update, advance, run, scope destruction, and the same from inside a task) against a reference timer list",
 "There is no scheduler test.",
 ["src/scheduler.cpp", "include/srtc/scheduler.h"], [("LoopScheduler queue", "scheduler.cpp"), ("ScopedScheduler", "scheduler.cpp")], ["task bodies", "getTimeoutMillis"])
prop("C07", "A peer with the wrong certificate never becomes connected",
 "If the certificate presented in the secure handshake does not match the fingerprint in the session description, the connection never reports Connected, and no media or data from that peer is ever delivered or sent to it. This holds for either handshake role and any difference between the fingerprints.",
 ["configurations", "fault_sequences"],
 "every role x every class of fingerprint discrepancy (each byte position, wrong length, missing, wrong algorithm, case/format variants) on a virtual network",
 "No test performs a DTLS handshake.",
 ["src/peer_candidate.cpp", "src/sdp_answer.cpp", "src/x509_certificate.cpp", "src/x509_hash.cpp", "src/util.cpp"], [("fingerprint comparison", "peer_candidate.cpp")], ["PeerConnection state and media callbacks"])
prop("C08", "An offer and a matching answer produce exactly the agreed tracks",
 "Every offer this library generates has unique payload ids and stream identifiers, and for any answer that accepts a subset of it the resulting tracks have exactly the codec, payload ids, stream identifiers, clock rate, feedback and simulcast layers agreed. Any text presented as an answer either fails cleanly or yields a usable description, without crash or out-of-bounds access.",
 ["inputs", "configurations"],
 "every offer configuration from a grid (directions, media counts, codecs, retransmission, bandwidth estimation, simulcast, channels) with every subset answer, and every answer with each line dropped, duplicated, swapped or truncated",
 "No test covers SDP.",
 ["src/sdp_offer.cpp", "src/sdp_answer.cpp", "src/track_selector.cpp", "src/util.cpp"], [("offer generation", "sdp_offer.cpp"), ("answer parsing", "sdp_answer.cpp")], ["SdpOffer::generate", "SdpAnswer::parse"])
prop("C09", "A lost connection is detected, restored when possible, otherwise failed",
 "When an established connection stops receiving from its peer it is noticed within the loss timeout; if the peer becomes reachable again before the failure limit the connection resumes, the attempts to restore it end, and it delivers media and data again, otherwise it is reported as failed once. An idle but reachable connection is not reported lost.",
 ["schedules", "fault_sequences"],
 "two complete connection stacks on a virtual network and clock: every blackout start and length from a boundary grid, in each direction, with and without traffic",
 "Needs tens of seconds of network outage at particular moments; no test creates a connection.",
 ["src/peer_candidate.cpp", "src/peer_connection.cpp"], [("connection lost / restore timers", "peer_candidate.cpp")], ["PeerConnection listeners"])

prop("C10", "Datagrams that are not authentic do not disturb a connection",
 "Datagrams that do not come from the peer in the form it sent them - changed, cut short, extended, repeated, reflected to their sender, from another address, empty or arbitrary bytes - neither change what is delivered on an established connection nor its reported states nor what the peer gets, and do not keep a connection alive whose peer is gone. While connecting, those that can be told from the peer's own do not prevent the connection.",
 ["inputs", "histories", "fault_sequences"],
 "every kind of datagram of a session x every kind of alteration (each byte of its protected part and header, lengths, repeats in other states, reflection, other senders) injected after each point of a session with media and data in both phases",
 "No test creates a connection, and an attack consists of particular bytes at a particular moment.",
 ["src/peer_candidate.cpp", "src/socket.cpp", "src/srtp_connection.cpp", "src/srtp_crypto.cpp", "src/ice_agent.cpp", "src/sctp/sctp_session.cpp"],
 [("datagram dispatch", "peer_candidate.cpp"), ("address filter", "socket.cpp")], ["PeerConnection listeners", "frames and data received"])

# ------------------------------------------------------------------ utility
prop("U01", "Pooled objects are never handed out twice at the same time",
 "Objects obtained from the pool allocator and not yet returned are distinct, properly constructed and never overlap, whatever the sequence of create and destroy; each is destroyed exactly once, and nothing leaks or is destroyed early when the pool goes away.",
 ["histories"],
 "every create/destroy sequence up to a bounded depth with every choice of which live object to return, against a reference set, under address checking",
 "test_pool_allocator runs two fixed sequences.",
 ["src/pool_allocator.cpp", "include/srtc/pool_allocator.h"], [("free list", "pool_allocator.cpp")], ["PoolAllocator<T>::create/destroy"])
prop("U02", "Byte and bit readers and writers are exact and stay in bounds",
 "Any sequence of values written to a byte buffer reads back as the same values in the same order with the encoded sizes the formats prescribe, buffers keep their content through growth, move and copy, and bit-level reads return the bits of the buffer in order. No read of a valid sequence touches memory outside the buffer.",
 ["inputs", "histories"],
 "every operation sequence up to a bounded depth over all writer operations with boundary values, mirrored by a reference vector",
 "Tests use the buffer only incidentally.",
 ["src/byte_buffer.cpp", "src/bit_reader.cpp", "include/srtc/byte_buffer.h"], [("growth", "byte_buffer.cpp")], ["ByteBuffer, ByteWriter, ByteReader, BitReader"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
