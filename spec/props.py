# The properties, in one place; gen.py writes properties.jsonl and MANIFEST.json.
NA = {
 "N01": "exported pure functions of their arguments that no code of the repository calls: no schedule, clock, I/O or peer for a simulation to control",
}
SIMNOTE = ("Seeded random search over schedules, network/disk behaviour and faults on the real code with simulated sockets, files, "
           "clock and scheduler; a clean run is evidence over the sampled executions, not proof. Trusts the simulation kernel, the "
           "source instrumentation and the oracle in /verif/sim/scen. ")
PROPS = [
 dict(id="C01", title="RTMP media arrives intact, in order, exactly once",
  statement="Audio frames, video frames, their configuration records and metadata written to one end of an established RTMP session come out of the reader at the other end in the same order, each exactly once, with the same kind, payload bytes, key-frame flag, composition offset and (for audio and video frames) millisecond timestamp, whatever the network segmentation, delays, back-pressure, chunk sizes and task interleavings. If the connection is cut or the sending process dies at any point, the reader receives exactly a prefix of what was written, never a truncated, altered, repeated or reordered packet, and is then told that the stream ended. On a healthy connection everything written before an orderly close is received, and no write fails; a written buffer is the caller's again, and a delivered one never changes.",
  over=["schedules","inputs","fault_sequences","crash_points"],
  quant="every packet sequence (sizes 0 to hundreds of KB, timestamps across the 24-bit limit), every segmentation, delay, buffer size, chunk size, interleaving, and every byte offset for a reset, orderly cut, stall or crash; joy5 at both ends or against an independent endpoint; either role",
  why="No existing test runs an RTMP session at all; the guarantee is over every packet sequence, network behaviour and cut point.",
  files=["format/rtmp/msg.go","format/rtmp/conn.go","format/rtmp/cmd.go","format/rtmp/client.go","format/rtmp/server.go","format/flv/flv.go","format/flv/flvio/flvio.go"],
  mech=[("chunk writer and reader","format/rtmp/msg.go writeMsg2/readChunk"),("packet/tag mapping","format/flv/flv.go WritePacket/ReadPacket")],
  observe=["packets returned by the reader compared with packets accepted by the writer"],
  tech="seeded schedules, link behaviour, cuts and crashes; exact-sequence / prefix oracle over the delivery history", note=SIMNOTE+"Metadata is compared up to AMF object/ECMA-array representation; TLS is not simulated."),
 dict(id="C02", title="accepted RTMP packets reach the peer without further writes",
  statement="Once a packet write on an RTMP session reports success, the complete packet reaches the reader on the other end of a healthy connection within the link's own transfer time, even if the writer then stays idle forever or closes the connection right away. Nothing accepted is held back waiting for a later write.",
  over=["schedules","inputs","fault_sequences"],
  quant="every packet sequence, every placement of idle gaps or close, every link and buffer size, either role",
  why="Needs a live sender that goes idle between packets and a real peer; no test runs a session.",
  files=["format/rtmp/msg.go","format/rtmp/cmd.go","format/flv/flv.go"],
  mech=[("flush after each written tag","format/rtmp/msg.go WriteTag/flushWrite")],
  observe=["receiver's packet log while the sender is idle"],
  tech="seeded schedules with idle gaps and slow links; bounded-delivery oracle while the sender is quiet", note=SIMNOTE),

 dict(id="C03", title="RTMP reader understands every legal chunk stream",
  statement="Whatever legal way an RTMP peer cuts and interleaves its messages into chunks (every header compression form, one-, two- and three-byte chunk stream ids, extended timestamps, chunk size changes in mid-stream, control messages between the chunks of a media message, messages aborted half-way, several chunk streams in flight at once), joy5 delivers exactly the messages sent, in completion order, with the right type, payload and timestamp. No legal choice makes a session fail or stall.",
  over=["inputs","schedules"],
  quant="every message sequence and every legal chunking of it, every segmentation; joy5 as server reading a publisher and as client reading a player source",
  why="Tests contain no RTMP exchange; legal chunkings are combinatorial and other implementations choose differently from joy5's own writer.",
  files=["format/rtmp/msg.go","format/rtmp/conn.go"],
  mech=[("chunk header decoding and reassembly","format/rtmp/msg.go readChunk"),("timestamp deltas","format/rtmp/msg.go")],
  observe=["packets returned by the reader compared with the messages the model encoder sent"],
  tech="an independent chunk-stream encoder draws legal chunkings and link schedules from the seed; exact-sequence oracle", note=SIMNOTE),
 dict(id="C04", title="RTMP negotiation agrees on role, URL and stream; handler runs once",
  statement="On a healthy network every RTMP open succeeds, and the server's handler runs exactly once per accepted session, seeing the role (publish or play), path, query, page URL and player version the client sent. Both sides use the message stream id the server granted, and the client is told success on it. This holds for any number of concurrent sessions, which never see each other's URL, role or media, for the simple and the digest handshake, for reordered optional commands, and with joy5 or an independent implementation at the other end.",
  over=["schedules","inputs"],
  quant="every path of two or more segments with or without query, both roles, every interleaving of concurrent sessions, granted stream ids, handshake variants and command orders of other implementations",
  why="No test opens a session; agreement is between two processes over every URL, peer variant and interleaving.",
  files=["format/rtmp/cmd.go","format/rtmp/handshake.go","format/rtmp/server.go","format/rtmp/client.go","format/rtmp/conn.go"],
  mech=[("command exchange","format/rtmp/cmd.go"),("handshake","format/rtmp/handshake.go"),("URL assembly and split","format/rtmp/cmd.go")],
  observe=["handler arguments, client's view, wire messages seen by an independent peer"],
  tech="seeded concurrent sessions against joy5 and against an independent endpoint model; agreement oracle over both ends' views", note=SIMNOTE+"Success status needs joy5's server to have been told to complete the negotiation or to have read or written media."),
 dict(id="C05", title="RTMP negotiation is bounded in time on both sides",
  statement="If a peer connects (or is dialled) and then stops cooperating at any point before the session is established (silence, trickling bytes, stalled reading), the joy5 side gives up within 15 seconds (a server: its handshake timeout) plus transit, closes its connection, returns an error, and a server does not run the handler for it. A negotiation that needs less than that is not cut short, and once established a session may stay idle for any length of time without being killed.",
  over=["fault_sequences","schedules","crash_points"],
  quant="every byte offset at which the peer stalls, trickles or stops reading, both roles, every idle gap afterwards",
  why="Time limits against uncooperative peers need a controlled clock and peer; no test has either.",
  files=["format/rtmp/server.go","format/rtmp/client.go","format/rtmp/handshake.go"],
  mech=[("deadlines around negotiation","format/rtmp/server.go HandleNetConn"),("client deadline","format/rtmp/client.go")],
  observe=["end of the open call / server task, socket state, handler invocation"],
  tech="peer stalls at seeded byte offsets under simulated time; bounded-progress oracle", note=SIMNOTE),
 dict(id="C06", title="a refused RTMP session is reported as refused",
  statement="When an RTMP server refuses the connection, the stream, the publish or the play, the client's open fails within ten seconds of the refusal's arrival with an error that carries the status code the server gave, and the client's connection is closed; the reason text reaches the client too when the server is joy5. An open never succeeds for a refused request and never fails for an accepted one.",
  over=["inputs","schedules"],
  quant="every refusal reason, role and interleaving, joy5 at both ends or an independent client or server using any error code",
  why="Refusal crosses two processes; no test does.",
  files=["format/rtmp/cmd.go","format/rtmp/client.go","format/rtmp/server.go"],
  mech=[("status reply","format/rtmp/cmd.go"),("status check","format/rtmp/cmd.go")],
  observe=["error and status fields at the client, socket state"],
  tech="seeded refusals at random sessions; agreement oracle between decision and report", note=SIMNOTE),
 dict(id="C07", title="a hostile RTMP peer is contained",
  statement="Whatever bytes an RTMP peer sends, before or after the session is established, as client or as server, joy5 does not panic, spin, or reserve memory out of proportion to what the peer actually sent, and ends that one session with an error or clean close once the peer is gone. Other sessions of the same process are unaffected: they open, deliver all their media and end normally.",
  over=["inputs","fault_sequences","schedules"],
  quant="random garbage, mutated and truncated legal sessions, hostile lengths, nested and malformed AMF, illegal chunk headers, and abrupt ends at every offset, next to healthy sessions",
  why="Input space is all byte strings at all session stages; tests feed none.",
  files=["format/rtmp/msg.go","format/rtmp/conn.go","format/rtmp/cmd.go","format/rtmp/handshake.go","format/flv/flvio/amf0.go","format/flv/flvio/flvio.go"],
  mech=[("chunk reassembly","format/rtmp/msg.go"),("AMF parsing","format/flv/flvio/amf0.go"),("handshake parsing","format/rtmp/handshake.go")],
  observe=["process death, step budget, allocation sizes, other sessions' media"],
  tech="seeded hostile peers built from legal sessions by mutation, plus healthy neighbours; crash, livelock, allocation and isolation oracles", note=SIMNOTE+"Memory is judged by single slice reservations and their sum against bytes received, not by the Go heap."),
 dict(id="C08", title="RTMP acknowledgements and pings are answered in time",
  statement="While joy5 negotiates or reads an RTMP session it acknowledges received bytes whenever the peer's announced window has been reached, with a correct running total, and answers every ping request with the same payload, promptly, without needing a write from the application. Its answers never corrupt, delay or reorder media flowing in either direction.",
  over=["schedules","inputs","fault_sequences"],
  quant="every window size and change of it, every placement of pings, media and idle gaps, both roles, concurrent application writes",
  why="A peer that waits for acknowledgements stalls only under real traffic patterns; tests have no peer.",
  files=["format/rtmp/conn.go","format/rtmp/msg.go"],
  mech=[("control message handling","format/rtmp/conn.go"),("acknowledgement count","format/rtmp/msg.go")],
  observe=["control messages received by the peer model"],
  tech="peer model that enforces its window under seeded schedules; bounded-response oracle once the sender is quiet", note=SIMNOTE+"A window that shrinks takes effect from the next message."),
 dict(id="C09", title="an RTMP disconnect is noticed, and only a disconnect",
  statement="When the peer of an established session closes, resets or crashes, a writing session's close notification fires and a reading session's read returns an error, each within the link's transfer time, even if the application is otherwise idle; writes to a peer that is gone start to fail and never block forever. Neither happens while the peer is connected, however slow, and whatever unsolicited data the peer of a writing session sends is drained without blocking either side.",
  over=["schedules","fault_sequences","crash_points"],
  quant="every moment and manner of the peer's leaving, active or idle writer, arbitrary unsolicited traffic, both roles",
  why="Needs a live peer that leaves at arbitrary moments; none in the tests.",
  files=["format/rtmp/conn.go","format/rtmp/msg.go"],
  mech=[("background reader and close notification","format/rtmp/conn.go CloseNotify")],
  observe=["close notification time, read and write errors, unread bytes at the peer"],
  tech="seeded departures and unsolicited traffic; bounded-notification and no-spurious-notification oracles", note=SIMNOTE),
 dict(id="C10", title="FLV recordings survive crashes, disk errors and corruption honestly",
  statement="Packets written to an FLV file or served as FLV over HTTP read back as the same sequence with the same content and times, which stay as delivered; after a crash or failed write at any byte, everything accepted before the tear reads back as an exact prefix. A disk write error is reported by the write or by Close; a read error, cut or interrupted transfer is never reported as the orderly end of the stream; corrupt files make the reader return an error without panicking, hanging or reserving memory out of proportion.",
  over=["inputs","crash_points","fault_sequences"],
  quant="every packet sequence and every byte offset for crash, torn write, full disk, short read, read error or HTTP interruption, every corruption",
  why="Tests write no file and inject no disk fault; the guarantee is over every fault position.",
  files=["format/flv/flv.go","format/flv/flvio/flvio.go","format/format.go"],
  mech=[("tag writer and reader","format/flv/flvio/flvio.go"),("muxer and demuxer","format/flv/flv.go"),("open and create","format/format.go")],
  observe=["packets read back, errors returned"],
  tech="simulated disk and HTTP server with seeded faults at byte offsets; prefix and honest-error oracles", note=SIMNOTE+"Go's net/http is stubbed by a small HTTP/1.1 client over the simulated network."),
 dict(id="C18", title="pub/sub server delivers streams unaltered and in order",
  statement="Every audio or video packet a subscriber of the pub/sub RTMP server receives was published on the same stream name, is unaltered, and comes in publication order without repetition; packets are left out only by resuming at a later key frame of that publisher. When publishers replace each other, a subscriber never goes back to an earlier one, and all subscribers see them in the same order.",
  over=["schedules","fault_sequences","histories"],
  quant="any number of streams, publishers that come, go, overlap and die, and fast, slow, stalled and leaving subscribers under every interleaving",
  why="The server has no test at all, and the guarantee is over every interleaving of its shared, partly lock-free state.",
  files=["cmd/avtool/pubsub.go"],
  mech=[("GOP cache and cursor","cmd/avtool/pubsub.go"),("publisher swap","cmd/avtool/pubsub.go setPub"),("stream registry","cmd/avtool/pubsub.go streams")],
  observe=["packets received by each subscriber against each publisher's log"],
  tech="whole server process under a seeded scheduler with many clients; history oracle (subsequence with key-frame gaps, publisher order)", note=SIMNOTE),
 dict(id="C19", title="pub/sub subscribers get headers and a decodable start",
  statement="A subscriber's first packet from any publisher is that publisher's first or a key frame, and a subscriber that joins late starts no earlier than the latest key frame published well before it joined, and does start when there is something to send. Before each audio packet the subscriber has been sent the audio configuration in effect when it was published, before each video key frame the video configuration in effect, and the metadata in effect before any packet; headers are repeated after every change.",
  over=["schedules","histories"],
  quant="every join time relative to key frames, header changes and publisher swaps, every interleaving",
  why="No test runs the server; decodability depends on join time and interleaving.",
  files=["cmd/avtool/pubsub.go"],
  mech=[("header merge and split","cmd/avtool/pubsub.go"),("GOP cache","cmd/avtool/pubsub.go")],
  observe=["packets and configuration records received by each subscriber"],
  tech="whole server under a seeded scheduler; per-packet headers-in-effect oracle", note=SIMNOTE+"'Well before' is four simulated seconds."),
 dict(id="C20", title="pub/sub server forgets and delays nobody",
  statement="Once a stream is quiet, every subscriber that keeps reading has received the newest packet of the stream's current publisher, and a subscriber that keeps up with a slow-paced publisher misses nothing; a slow, stalled or dead subscriber never delays the publisher or the others. The server ends no session without reason: only a replaced publisher or a client that left loses its session, and other streams are never affected.",
  over=["schedules","fault_sequences"],
  quant="every interleaving of publishing, joining, stalling, leaving and publisher replacement; transient accept errors",
  why="Lost wake-ups and head-of-line blocking show only under particular interleavings; no test runs the server.",
  files=["cmd/avtool/pubsub.go","format/rtmp/conn.go"],
  mech=[("subscriber notification","cmd/avtool/pubsub.go notifySub"),("subscriber loop","cmd/avtool/pubsub.go addSub")],
  observe=["last packet at each subscriber after quiescence; session errors"],
  tech="whole server under a seeded scheduler with stalled and dead clients; eventual-delivery oracle after quiescence", note=SIMNOTE),
 dict(id="C21", title="pub/sub sessions leave nothing behind",
  statement="When all clients have left, in whatever way, the pub/sub server holds no connection and no task for them, and later subscribers and publishers of the same stream names start afresh, never seeing packets from before; what a client that left cost it, it costs no more: neither memory nor work for each packet published later grows with the number of clients that came and went. A publisher that has been replaced by a newer one on its stream and keeps sending is disconnected.",
  over=["schedules","fault_sequences","histories"],
  quant="every way and moment of leaving, generations of clients on the same names",
  why="Leaks need whole client generations with faults; no test runs the server.",
  files=["cmd/avtool/pubsub.go","format/rtmp/server.go","format/rtmp/conn.go"],
  mech=[("session teardown","cmd/avtool/pubsub.go HandleConn"),("stream reference count","cmd/avtool/pubsub.go streams.add")],
  observe=["server's tasks and open connections after everyone left; second generation's packets"],
  tech="whole server under a seeded scheduler, client generations with seeded departures; resource census and freshness oracle", note=SIMNOTE),

 dict(id="C22", title="RTMP forwarder relays faithfully and survives its clients",
  statement="What a destination of the RTMP forwarder receives is exactly, in order, a prefix of what the one publisher that named it sent (all of it when that publisher closes in good order and nothing fails), and when either end leaves the other is disconnected: the destination promptly, the publisher at the latest when it keeps sending. A publisher is told it may publish only if its destination accepted; requests to play, without a destination, with an unreachable, refusing or silent destination or with one that is not RTMP are turned away and never touch the server's files. Nothing clients or destinations do stops the forwarder or disturbs another publisher, and when both ends of a relay have left no connection or task remains.",
  over=["schedules","fault_sequences","inputs"],
  quant="any number of concurrent publishers, destinations that accept, refuse, stall, die or are unusable, every interleaving and moment of leaving",
  why="No test runs the forwarder; the guarantee spans three processes and their failures.",
  files=["cmd/avtool/forwardrtmp.go","format/rtmp/client.go","format/rtmp/server.go","format/format.go"],
  mech=[("relay loop","cmd/avtool/forwardrtmp.go HandleConn")],
  observe=["packets at each destination, publisher errors, files, server tasks and connections"],
  tech="three-party simulation with seeded destination and publisher failures; prefix, honesty, file and resource-census oracles", note=SIMNOTE),

 dict(id="C25", title="Opening and closing URLs leaves nothing behind",
  statement="Opening or creating a URL that cannot be served (malformed, unsupported scheme or file type, missing or unopenable file, HTTP error status, absent, silent, refusing or failing server, listening address in use) returns an error within bounded time; it leaves no open file, connection, listener or task, and an unsupported request creates and truncates no file. Closing a source or destination that was opened releases all of them at whatever moment and whatever state its transfer or disk is in, and ends an operation pending on it; hooks set on the opener are each told once of the client, connection or file it makes for that URL. A listening RTMP source is handed to the first client that publishes, at once stops listening, turns every other client away, and ends when its publisher leaves.",
  over=["schedules","fault_sequences","inputs"],
  quant="all kinds of unusable URLs and failing peers, every moment of closing relative to pending operations and disk failures, every arrival order of clients at a listening source",
  why="The URL opener has no tests; leaks and hangs depend on the peer's behaviour and the moment of closing.",
  files=["format/format.go","format/rtmp/client.go","format/rtmp/server.go","format/rtsp/client.go","format/mp4/muxer.go"],
  mech=[("opening and creating","format/format.go URLOpener.Open/Create"),("listening source","format/format.go StartRtmpServerWaitConn")],
  observe=["error results, files created, handles, connections, listeners and tasks of the process, moment pending operations end"],
  tech="seeded simulation of failing peers and disks with a resource census after every failed open and every close", note=SIMNOTE),

 dict(id="C23", title="Conversion paces packets at their native rate",
  statement="When avtool conv writes to a remote destination, or with --re to any destination, no audio or video packet is sent before its timestamp distance from the first audio or video packet has passed since that one was sent, wherever the stream's timestamps start. The first packet goes out at once, and none is held back longer than its timestamp distance from the packet before plus what the source, the destination or the machine itself delayed. A conversion to a file without --re is not slowed down.",
  over=["schedules","inputs","configurations"],
  quant="every non-decreasing timestamp sequence, starting point, arrival pattern of a live source, mix of packet kinds and scheduling of the process",
  why="Pacing is about when each write happens; tests would need real time and control over the scheduler.",
  files=["av/pktop/pktop.go","cmd/avtool/conv.go","format/format.go"],
  mech=[("rate limiter","av/pktop NativeRateLimiter"),("conversion loop","cmd/avtool/conv.go doConv")],
  observe=["simulated time at which each packet's bytes are handed to the network or the disk"],
  tech="seeded simulation on virtual time of the avtool program, every outgoing byte timestamped and compared with the packets' timestamps", note=SIMNOTE),
 dict(id="C24", title="Conversion is complete or says it failed",
  statement="avtool conv exits with status 0 only if everything up to the orderly end of the source was written to the destination, unaltered, once and in order, and the destination was completed; whatever fails (the source cannot be opened or breaks off inside a packet or with an error; the destination cannot be opened, written or closed) makes it exit with another status, and it fails only then. What it had written by then is a prefix of the source. Neither the printing, statistics, debugging and pacing flags nor the kind of source (file, HTTP, camera, RTMP server, RTMP publisher) change any of this.",
  over=["schedules","fault_sequences","configurations","inputs"],
  quant="every source, destination and flag combination, every point at which either side fails, every disk fault of the destination",
  why="The command has no test without network; its promise is about every failure point of two peers and a disk.",
  files=["cmd/avtool/conv.go","cmd/avtool/statsec.go","cmd/avtool/main.go","format/format.go","format/flv/flv.go","format/rtmp/conn.go"],
  mech=[("conversion loop","cmd/avtool/conv.go doConv"),("exit status","cmd/avtool/main.go"),("connection statistics","cmd/avtool/statsec.go")],
  observe=["exit status, bytes handed to network and disk, packets received by the destination, errors the simulated system reported"],
  tech="seeded simulation of the avtool program with faults on source, destination and disk; exit status compared with what the simulator knows happened", note=SIMNOTE),

 dict(id='C11',
  title='MP4 recordings are valid files that hold every packet',
  statement='Once Close returns without error, an MP4 recording is a well-formed file that holds every packet WritePacket accepted, per track in order: payload, decode time relative to the first packet of the track (within one tick of the track, however many packets or hours), composition offset of either sign, which video samples are key frames, the codec configuration, picture size or channels and sample rate, and track and movie durations that fit. Another parser and the demuxer of this library read it back alike, also with no packet at all, with one track, or with a track that appears while recording. A packet that goes back in time, whose stream does not exist, or that the file cannot hold (a gap of 14 hours, beyond 4 GiB) is refused with an error, and the rest of the recording is unharmed.',
  over=['inputs','histories'],
  quant='every sequence of audio and video packets, payload sizes, time steps, composition offsets, key frame patterns, codec configurations and refused packets',
  why='The tests write no MP4 file; tables, rounding and interleaving depend on the whole history of packets.',
  files=['format/mp4/muxer.go','format/mp4/stream.go','format/mp4/mp4io/mp4io.go','format/format.go'],
  mech=[('sample tables while writing','format/mp4/muxer.go WritePacket'),('header completed on Close','format/mp4/muxer.go WriteTrailer'),('box writer','format/mp4/mp4io/atoms.go')],
  observe=['bytes of the finished file, judged by an independent parser','packets read back by the demuxer','errors of WritePacket and Close'],
  tech='seeded packet histories recorded to a simulated disk with short reads; independent MP4 parser as reference model',
  note=SIMNOTE),
 dict(id='C12',
  title='MP4 recording reports disk failures and never fakes a whole file',
  statement='While recording an MP4, every failure of the disk (creating, writing, seeking, closing; full disk, torn write, one single error) and unknown streams are reported by Create, WritePacket or Close, and the file is not left open afterwards. After a crash at any byte, or a reported failure, reading what is on the disk never panics, never gives a packet that was not recorded as it was and in order, and never ends like a complete recording when packets accepted before are missing.',
  over=['crash_points','fault_sequences'],
  quant='every byte offset for crash, torn write, full disk and write error, every seek, every packet history',
  why='Tests inject no disk fault; the guarantee is over every fault position.',
  files=['format/mp4/muxer.go','format/mp4/demuxer.go','format/format.go'],
  mech=[('buffered writes and trailer','format/mp4/muxer.go'),('create and close','format/format.go'),('reading after the crash','format/mp4/mp4io/mp4io.go ReadFileAtoms')],
  observe=['errors returned, open files','packets read back'],
  tech='simulated disk with seeded crash points and errors at byte offsets; honest-error and prefix oracles',
  note=SIMNOTE),
 dict(id='C13',
  title='MP4 files of any layout are read in order, seekable and contained',
  statement='Reading an MP4 file of any layout (any grouping into chunks, equal or single sizes, run lengths, composition offsets of either version, with or without key frame table, movie box before or after the media, unknown boxes and tracks, 64-bit or open-ended media) gives every sample of its H.264 and AAC tracks exactly once, ordered by decode time, with payload, time, composition offset, type and key frame mark, and then the end, and describes each track with the configuration, picture size, or sample rate and channels it declares; a delivered packet never changes. Seeking to a time continues from the last video key frame at or before it and, on the other tracks, from the last sample at or before the time of that key frame (the first one if there is none). A disk error or cut-off file is reported as an error and not as the end, and reading goes on when the disk does; a malformed file makes the reader fail or end without panicking, hanging or reserving memory out of proportion.',
  over=['inputs','fault_sequences'],
  quant='every table layout, seek target, read error position, truncation and corruption',
  why='The tests read no MP4 file; the table arithmetic depends on combinations of layouts.',
  files=['format/mp4/demuxer.go','format/mp4/stream.go','format/mp4/mp4io/mp4io.go','format/mp4/mp4io/atoms.go'],
  mech=[('sample tables while reading','format/mp4/stream.go'),('choosing the next packet, seeking','format/mp4/demuxer.go'),('box parser','format/mp4/mp4io/atoms.go')],
  observe=['packets, errors and allocation of the demuxer'],
  tech='files of seeded layout from an independent builder on a simulated disk with read and seek errors; reference model of reading and seeking',
  note=SIMNOTE),
 dict(id="C14", title="RTSP packets come out as the server sent them",
  statement="From an RTSP server that streams H264 and AAC tracks interleaved on the control connection, the client delivers, in the order they were completed, each exactly once and unaltered afterwards, one packet per NAL slice unit sent alone or in fragments, one with all the slices of an aggregate, and one per AAC access unit, with the right kind, key-frame flag and time since the track's first packet, wherever the RTP timestamps start and also across their wrap-around. Parameter sets, SEI and other non-slice units, units of which the first or last fragments are missing, RTCP, header extensions, padding, late answers, requests of the server, media that overtakes the answer to PLAY, network segmentation and pauses change none of this, nor do undecodable RTP packets when the client is told to skip them. If the connection is lost or closed the client has delivered exactly a prefix (after an orderly end everything that arrived completely), and an end inside a packet is not reported as an orderly one.",
  over=["inputs","schedules","fault_sequences","crash_points"],
  quant="every mix of up to three tracks and payload formats (single units, fragments, aggregates, one AAC unit per packet), every size, timestamp start and gap below 28 minutes, segmentation, pause, and byte offset of a cut or reset; timestamps of a track do not decrease and parameter sets do not change",
  why="The RTSP client has no test beyond a print of one SDP; delivery depends on a live server, segmentation and cut points.",
  files=["format/rtsp/client.go","format/rtsp/stream.go","format/rtsp/sdp/parser.go"],
  mech=[("interleaved framing","format/rtsp/client.go findRTSP/parseBlockHeader"),("H264 depacketisation","format/rtsp/client.go handleH264Payload"),("RTP header and time","format/rtsp/client.go handleRtpPacket/handleBlock")],
  observe=["packets returned by the client compared with the units the model server sent"],
  tech="an independent RTP packetiser and RTSP server under seeded link behaviour, cuts, resets and crashes; exact-sequence / prefix oracle", note=SIMNOTE+"Several AAC units in one RTP packet and decreasing (B-frame) timestamps are outside the statement."),
 dict(id="C15", title="RTSP negotiation: right tracks, right session, honest errors",
  statement="Opening an RTSP stream describes it, sets up exactly the selected tracks in the selected order and plays them in the server's session, and the tracks reported are those the server describes, one codec each with the described parameters, also when the description lists other media to be skipped. Credentials of the URL are used (Basic or Digest, as challenged) only after the server asks for them and never appear in request addresses; a good session always opens, whichever way its description spells addresses and parameters. A missing or wrong password, any refusal of DESCRIBE, SETUP or PLAY (with or without a body), an unusable description or a lost connection is reported as an error without endless retries: no later step is attempted, no packet is delivered and after closing nothing remains.",
  over=["inputs","fault_sequences","schedules"],
  quant="every selection of tracks, way of opening, challenge, credentials, refusal status and step, legal form of answer and description, byte offset at which the negotiation is cut",
  why="No test talks to a server; honesty must hold for every answer at every step.",
  files=["format/rtsp/client.go","format/rtsp/sdp/parser.go","format/format.go"],
  mech=[("requests and answers","format/rtsp/client.go Describe/Setup/Play"),("authentication","format/rtsp/client.go handle401"),("description","format/rtsp/sdp/parser.go")],
  observe=["requests seen by the model server; errors, tracks and packets seen by the caller"],
  tech="seeded challenges, refusals and cuts by a model server; dialogue, agreement and honesty oracle", note=SIMNOTE.rstrip()),
 dict(id="C16", title="A hostile RTSP server cannot harm its client",
  statement="Whatever an RTSP server sends (garbage or corrupted answers, oversized or missing bodies, endless headers or challenges, malformed descriptions, media blocks with impossible lengths, header fields, nesting or fragments) the client does not crash or spin, uses memory in proportion to what it received, and delivers no more data than it was sent. It reports an error at the latest when the server has gone, and closing it releases everything.",
  over=["inputs","fault_sequences","schedules"],
  quant="every byte sequence at every step of the dialogue and of the media stream",
  why="The input space is every server; no test feeds the client anything.",
  files=["format/rtsp/client.go","format/rtsp/sdp/parser.go","codec/h264/h264.go","codec/aac/aac.go"],
  mech=[("answer parsing","format/rtsp/client.go readResp/parseHeaders"),("media parsing","format/rtsp/client.go handleRtpPacket"),("description parsing","format/rtsp/sdp/parser.go")],
  observe=["panics, allocations, progress and end of the client process"],
  tech="seeded hostile server; crash, livelock, allocation, termination and resource-census oracles", note=SIMNOTE),
 dict(id="C17", title="RTSP client keeps its time limits",
  statement="With a response time limit set (and, where wanted, another one for media), an RTSP client whose server falls silent at any point (no answer, no media, half a packet, dead network) or stops reading its requests fails with a timeout once that long has passed since the last byte, not notably later, and never while bytes keep coming within the limit or once the limit has been lifted. With a keepalive interval set, the server is sent a request about once per interval while packets flow, its answers disturb nothing, and none is sent otherwise. Connecting to a host that does not answer fails at the dial limit (three seconds through the URL opener), and Close ends a pending open or read at once and releases the connection.",
  over=["fault_sequences","schedules"],
  quant="every point of silence, limit, interval, pace of media and moment of closing",
  why="Time limits against a silent peer need a controlled clock and peer.",
  files=["format/rtsp/client.go","format/rtsp/conn.go","format/format.go"],
  mech=[("deadline per read","format/rtsp/conn.go"),("keepalive","format/rtsp/client.go SendRtpKeepalive"),("dialling","format/rtsp/client.go DialTimeout")],
  observe=["simulated time and kind of the client's error, requests seen by the server, connection state"],
  tech="servers silent or paced at seeded points under simulated time; two-sided time-bound oracle", note=SIMNOTE),

 dict(id="C26", title="Bit streams: every bit arrives, none is invented, errors are told",
  statement="Bits written to a bit stream come out most significant first, in order and padded with zeros on flush, for every sequence of widths up to 64, and bit, byte-string and Exp-Golomb readers (signed and unsigned) give back the values that were encoded, however the underlying source or file breaks the data up, taking no byte more than they were asked for. When the source ends or fails, everything before that point is still delivered and then the end or that very error is reported, never invented bits and never a failure passed off as an end. A write error is reported at the latest by the flush, and what the file holds is a prefix of what was written.",
  over=["inputs","fault_sequences","crash_points"],
  quant="every sequence of widths, values and read kinds at every bit position, every fragmentation of the source, every position and kind of end, read error or write error",
  why="The tests read four codes and write a handful of bits through memory buffers that never fragment, end early or fail.",
  files=["utils/bits/bits.go","utils/bits/golomb_reader.go"],
  mech=[("bit reader and writer","utils/bits/bits.go"),("Exp-Golomb codes","utils/bits/golomb_reader.go")],
  observe=["values and errors returned by the readers; bytes in the simulated file"],
  tech="seeded operation sequences over simulated files with short reads, early ends, read, write and close errors and crashes; bit-string reference model", note=SIMNOTE),
 dict(id="C27", title="The FLV rewriting tools change only what they claim and tell the truth",
  statement="The FLV rewriting tools produce a recording with the source's packets in the same order, with their times and flags, in which only the H264 payloads are rewritten: one tool turns each into start-code form in a single length-prefixed unit, the other drops the sequence headers and puts the parameter sets then in effect in front of each key frame. A tool exits successfully exactly when the whole source was read and the destination completely written. If the source is cut or unreadable or the disk fails at any point, it reports failure, what it wrote is the exact beginning of the right result (all that was read, when the source is what failed), and no other file is touched.",
  over=["inputs","fault_sequences","crash_points"],
  quant="every recording (parameter set changes, several headers, key frames before any header, audio only), every cut, read error, full disk, write, sync or close error and crash at every operation",
  why="No test runs a tool at all, let alone against a failing disk.",
  files=["cmd/avtool/avcc2annexb.go","cmd/avtool/seqhdr.go","cmd/avtool/main.go","format/flv/flv.go","codec/h264/h264.go"],
  mech=[("avcc to annex b","cmd/avtool/avcc2annexb.go"),("sequence header move","cmd/avtool/seqhdr.go"),("opening and closing files","format/format.go")],
  observe=["exit status, destination file and list of files opened by the simulated process"],
  tech="the real command run as a process on a simulated disk with seeded faults; independent FLV/H264 rewriting model with exact / prefix / honesty oracle", note=SIMNOTE),
 dict(id="C28", title="Bench player: every client gets the whole file, in time, in isolation",
  statement="The benchmark server reads its file completely before it serves (a file it cannot read to the end is a failure and no server is started) and then sends every player that asks all packets in order and unaltered, each not before its time relative to the first media packet and, while the player keeps up, not notably later, and then ends its stream. Players that leave, stall or crash, publishers and failing accepts harm no other player. When a player has gone its connection and tasks are released, and the number of players reported returns to what it should be.",
  over=["schedules","fault_sequences","inputs"],
  quant="every file, number of players, arrival, speed, stall, departure or crash of each, and every failure of an accept, read or open",
  why="The bench server has no test; isolation, pacing and release depend on schedules, slow peers and departures.",
  files=["cmd/avtool/benchrtmp.go","cmd/avtool/main.go","format/rtmp/server.go","av/pktop/pktop.go"],
  mech=[("one task per player","cmd/avtool/benchrtmp.go"),("pacing","av/pktop/pktop.go")],
  observe=["packets and their simulated arrival times at each model player; status lines; tasks and connections of the process"],
  tech="seeded players (prompt, slow, stalled, leaving, crashing, publishing) under simulated time and links; exact-sequence, two-sided pacing and resource-census oracles", note=SIMNOTE),

 dict(id="C29", title="RTSP codec change: reported once, nothing lost, described right",
  statement="When a camera replaces both H264 parameter sets of a track in mid-stream, however it packages them, the client reports the change once, after every packet completed before the new sets and before every one completed with or after them, and reports it again for as long as it is not handled. The reader it hands out when the change is handled continues the stream without losing, repeating or altering a packet of any track and describes every track with the sets then in effect; a track described without sets gets them from the stream. Repeating the sets in effect reports nothing, and if the connection ends the packets and changes seen are exactly a prefix of what was sent.",
  over=["histories","schedules","fault_sequences","inputs"],
  quant="every history of changes (to new sets and back to earlier ones) of up to three tracks, order and packaging of the sets, segmentation, stall, keepalive and offset of a cut or reset",
  why="The state that decides about a change lives across packets, tracks and reader generations; no test streams a change.",
  files=["format/rtsp/client.go","format/rtsp/stream.go","codec/h264/h264.go"],
  mech=[("change detection","format/rtsp/stream.go"),("hand-over to a new reader","format/rtsp/client.go"),("codec description","codec/h264/h264.go")],
  observe=["the sequence of packets and change reports, and the track descriptions after each change and at the end, against the model camera's plan"],
  tech="seeded camera model that changes parameter sets under simulated network, segmentation and cuts; exact event-sequence oracle", note=SIMNOTE),
 dict(id="N01", title="Audio header helpers round-trip",
  statement="Making an ADTS header for an AAC configuration and frame length and parsing it again gives the same configuration, header length and frame length, and writing an AAC configuration and parsing it again gives the same configuration.",
  over=["inputs"],
  quant="every configuration that the header can express and every frame length",
  why="A test samples a few of the combinations.",
  files=["codec/aac/aac.go"],
  mech=[("header maker and parser","codec/aac/aac.go")],
  observe=["returned values"],
  tech="none", note=""),

 dict(id="C30", title="FLV tags of any codec pass through files and sessions unchanged",
  statement="A tag written with WriteTag to an FLV file or an RTMP session, whatever its codec (any sound format, rate, sample size and channel layout; any frame type, video codec id, packet type and composition offset; data tags), is read back by ReadTag at the other end with the same fields, timestamp and payload, in order and exactly once, also when the other end is an independent implementation. After a cut or a crash at any byte what is read is a prefix of what was written, holding everything accepted before a crash of the writer of a file.",
  over=["inputs","schedules","fault_sequences","crash_points"],
  quant="every tag sequence over all field values, every link behaviour and cut point, every crash byte of a file; either role, joy5 at both ends or against an independent endpoint",
  why="No test writes or reads a tag; packets exercise only a few of the field combinations a relay of other codecs depends on.",
  files=["format/flv/flvio/flvio.go","format/flv/flv.go","format/rtmp/msg.go"],
  mech=[("tag header coding","format/flv/flvio/flvio.go"),("tag-level session I/O","format/rtmp/msg.go WriteTag/ReadTag")],
  observe=["tags returned by ReadTag compared with tags given to WriteTag or sent by the model"],
  tech="seeded tags, links, cuts and crashes; exact-sequence / prefix oracle against an independent encoder and parser", note=SIMNOTE),

 dict(id="C31", title="What avtool prints about packets, traffic and connections is true",
  statement="Unless --qpkt is given, conv prints exactly one line per packet it handles, in order, with its type, key flag, time, composition time and size; with --statsec it prints every second how many packets and bytes each RTMP connection moved since the last time, so that the numbers add up to what really went through. The events, stages, file headers and bytes that --drtmp and --dflv show are exactly those of the connection or file, and nothing is shown that was not asked for. Every server tool reports each connection once and each failed handshake once, and a server tool that cannot listen ends with a failure status.",
  over=["configurations","schedules","fault_sequences","inputs"],
  quant="every combination of the diagnostic flags, any source and destination, any failure of either, any interleaving of traffic and the statistics timer; any mix of clients that get in, break off or stay silent",
  why="Counters are shared between the data path and a timer, and events depend on how connections fail; no test runs the tool.",
  files=["cmd/avtool/conv.go","cmd/avtool/statsec.go","cmd/avtool/format.go","cmd/avtool/main.go","av/av.go","cmd/avtool/benchrtmp.go","cmd/avtool/pubsub.go","cmd/avtool/forwardrtmp.go","format/rtmp/wraprw.go"],
  mech=[("packet lines","av/av.go Packet.String"),("traffic counters","cmd/avtool/statsec.go"),("event and byte hooks","cmd/avtool/format.go")],
  observe=["standard output and error of the process, compared with the bytes and packets the simulated connections and files carried up to that instant"],
  tech="seeded conv and server runs under simulated network, disk and timers; running comparison of printed figures with the simulator's own", note=SIMNOTE+"Byte counts are compared from below only in runs without task stalls. The handshake is not part of the byte dump."),
]
