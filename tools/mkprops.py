#!/usr/bin/env python3
"""Single source of the property list; writes ../properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})
H="nora_ssh/src/host.rs"; S="nora_ssh/src/server.rs"; PK="nora_ssh/src/packet.rs"; ID="nora_ssh/src/identifier.rs"
SY="nora_ssh/src/sync.rs"; AR="nora_ssh/src/arena.rs"; CP="nora_ssh_core/src/packet.rs"
CC="nora_ssh_core/src/cipher/chacha20poly1305.rs"; KX="nora_ssh_core/src/key_exchange.rs"
EC="nora_ssh_core/src/message/key_exchange/ecdh.rs"; KI="nora_ssh_core/src/message/key_exchange/mod.rs"
UA="nora_ssh_core/src/message/userauth.rs"; CH="nora_ssh_core/src/message/channel/mod.rs"
SE="nora_ssh_core/src/message/channel/session.rs"; MM="nora_ssh_core/src/message/mod.rs"; DA="nora_ssh_core/src/data.rs"
D="nora_sshd/src/main.rs"; SC="nora_scp/src/main.rs"
NOTEST="The 35 unit tests only round-trip single messages of nora_ssh_core; nothing runs the server, a connection, or the "

p("C01","Client traffic altered in transit is never acted upon",
 "Whatever happens in transit to the bytes a client sends after key exchange (bit flips, dropped, duplicated, reordered, inserted or truncated data), the server only ever acts on an exact in-order prefix of the messages that client sent. The first altered packet has no effect, and once it has been received in full the server ends that connection without acting on anything after it. Messages inserted in the clear during key exchange do not let anyone leave out encrypted packets unnoticed.",
 ["fault_sequences","schedules","inputs"],"every alteration of the encrypted client-to-server byte stream, at every offset, under every fragmentation and interleaving",
 NOTEST+"cipher against a tampered stream.",[CC,H,CP],
 [("tag verified before decryption; per-packet counter is the nonce",CC+" decrypt_data/authenticate"),("read length, read body, verify, strip",H+" In::recv")],
 [("counter","packet sequence number used as nonce",CC)],["handler calls and process stdin made by the server","connection end"])
p("C02","Server output is always a valid, in-sequence encrypted packet stream",
 "Everything the server sends after key exchange decodes, for an independent implementation of chacha20-poly1305@openssh.com, as an unbroken sequence of well-formed packets: each authenticates under the next sequence number (the first being 3), is a whole number of 8-byte blocks, and carries at least four bytes of padding. This holds however the transport fragments, delays or interrupts the server's reads and writes and however many channels produce output at once.",
 ["schedules","fault_sequences","inputs"],"every fragmentation, back-pressure pattern and interleaving of concurrent senders on one connection",
 NOTEST+"sending half under partial writes or concurrent senders.",[H,S,SY,CP,CC],
 [("exclusive write half while a packet is written",SY+" LocalMutex"),("padding and length computation",CP+" Packet::wrap"),("encrypt then count",CC+" encrypt")],
 [("counter","sequence number of the next packet sent",CC)],["bytes received by the client"])
p("C03","Key exchange agrees keys and binds the whole transcript",
 "An unmodified client and the server always finish key exchange with the same keys and session identifier; the server presents its configured identification string and its configured host key, in the encoding clients know it by (uncompressed point), and the host-key signature verifies over the identification strings, both algorithm proposals, the host key, both ephemeral keys and the shared secret. If any of those was altered in transit the signature does not verify for the client, so client and server never both go on with different views of the exchange. A client key of the wrong length, or from which an all-zero shared secret follows, gets no reply and ends the connection. This holds for every legal identification string of either side, every host key and algorithm proposal, and however the handshake bytes are split or delayed. Lines that do not begin with 'SSH-' before a client's identification string are skipped, whatever they contain, and are no part of the exchange.",
 ["inputs","schedules","fault_sequences"],"every legal client identification/proposal/ephemeral key, every split of the handshake, every alteration of a clear-text handshake byte",
 NOTEST+"key exchange; agreement depends on rare values (leading zero bytes, high bits) and on byte-exact transcripts.",[H,ID,PK,EC,KI,KX,DA],
 [("exchange hash over the transcript",EC+" digest"),("key derivation",KX),("identification string parser",ID+" parse")],
 [],["server's handshake packets","signature verification by the client","first encrypted packet in each direction"])
p("C04","Every session is unique and recorded traffic cannot be replayed",
 "Any two connections, even from a client that repeats every byte it sent before, get different server ephemeral keys, session identifiers and traffic keys. Feeding the server a recording of everything a client sent on an earlier connection never makes it authenticate anyone or start a process.",
 ["histories","schedules","fault_sequences"],"every set of connections in one server's life and every recorded client byte stream played into a new connection",
 NOTEST+"two connections side by side; freshness is a property of histories.",[H,S,KX],
 [("per-connection generator seeded from entropy",S+" authenticate_new_client"),("fresh ephemeral secret per exchange",H+" handle_new_client")],
 [],["server ephemeral keys and session identifiers over the whole history","handler calls during a replay"])
p("C05","No session without mutually supported algorithms",
 "If a client's proposal lacks the server's key-exchange method, host-key type, or cipher in either direction, or does not allow for no compression in either direction, the server ends that connection without sending a key-exchange reply and without consulting any handler. A proposal that contains them anywhere in the respective list, among any other names, is always accepted, and the server's own proposal is such that a client negotiating by the rules of SSH selects exactly these.",
 ["inputs","schedules"],"every client proposal (any subset, order, near-miss spelling or prefix of names), under every fragmentation",
 NOTEST+"negotiation; NameList is only tested on three fixed strings.",[H,DA,KI],
 [("four-way list check",H+" handle_new_client"),("name-list iteration",DA+" NameListIter")],[],["kex reply on the wire","handler calls"])
p("C06","Nothing runs and nothing is granted before authentication succeeds",
 "A process is started on a connection only after the embedding application accepted an authentication request made on that same connection, and it runs as the user that acceptance returned. The client is told of success exactly once and only for an accepted request; every rejected, unsupported or key-probing request gets exactly one answer that is not success and leaves the connection unauthenticated and able to try again; refusals name public key and password as the methods to try, and are never partial successes. No service but user authentication is granted before that, and authentication requests that come after success are ignored.",
 ["histories","schedules","inputs"],"every sequence of authentication and connection-protocol messages, valid or not, pipelined or not, on any number of concurrent connections",
 NOTEST+"authentication dialogue; the order of messages and of handler completions is what matters.",[S,UA],
 [("authentication loop precedes the connection loop",S+" authenticate_new_client"),("user stored with the connection",S+" Client.user")],
 [("user","identity returned by the application for this connection",S+" Client")],["handler calls","authentication replies on the wire"])
p("C07","Authenticators see exactly what the client sent, bound to the session",
 "For every authentication request the application is consulted at most once and receives exactly the user name, service, method and credential bytes that the client sent, whatever their length or content. For public-key requests it also receives the exact data to be signed, which includes this connection's session identifier, so a signature made for another session, user, service or key never covers it. A malformed request, or one for a method not known under exactly that name, is never put to the application.",
 ["inputs","histories","schedules"],"every byte content and length of user, service, credentials that fits a packet; signatures carried over between connections",
 NOTEST+"server's handling of requests; signed data is never built by a test.",[S,UA,DA],
 [("request parser",UA+" Request::parse"),("signed-data layout",UA+" format_sign_data"),("blob and signature unwrapping",S+" authenticate_new_client")],
 [],["arguments of the authenticate and public_key_exists handlers"])
p("C08","Channel input reaches the right process complete and in order",
 "The bytes a process reads from its standard input are exactly, at every moment a prefix and finally all (unless the connection ends first), of the data its client sent on that channel, with nothing lost, repeated, reordered or taken from another channel. Its input is closed after the client's end-of-file or close and only after all earlier data was written. This holds however packets are fragmented, however slowly or in whatever small pieces the process accepts input, and whatever output is produced meanwhile.",
 ["schedules","fault_sequences","inputs"],"every interleaving of input, output and partial reads/writes over any number of channels and connections",
 NOTEST+"data path; loss depends on where reads and writes are split and what else becomes ready.",[S,H,AR],
 [("receive loop writes channel data to the process",S+" receive"),("channel table",AR)],
 [("channels","channel number to process input",S+" Client.channels")],["bytes accepted by each process's stdin","closing of stdin"])
p("C09","Process output reaches the right channel complete and in order",
 "For every process the client receives on that process's channel exactly the bytes it wrote to standard output and exactly those it wrote to standard error, each in order, without loss, repetition or bytes of any other process, before the channel is closed. This holds for every amount and timing of output, for concurrent channels and connections, and for clients that read slowly or send at the same time.",
 ["schedules","fault_sequences","inputs"],"every interleaving of output, input and back-pressure over any number of channels and connections",
 NOTEST+"output path.",[S,H,SY,CH],
 [("output forwarding",S+" start/send_channel"),("recipient channel mapping",S+" Channel.peer_channel")],
 [("peer_channel","client's number for the channel",S)],["channel data received by each client"])
p("C10","Exit status then close: sessions end exactly once and in order",
 "When a process has ended and its output is drained, the client receives, on that channel, its exit status, end-of-file and close, in that order, each exactly once and after all output. After the server's close (or the client's close answered by the server) nothing more is ever sent for that channel, and every close from the client is answered exactly once unless the server had already closed.",
 ["schedules","histories","fault_sequences"],"every order in which output end, error-output end and process exit can happen relative to each other and to client messages",
 NOTEST+"channel life cycle, whose failures are races between exit, end of output and close.",[S,CH,SE],
 [("exit-status, EOF and CLOSE emission",S+" start"),("close handling",S+" receive")],[],["channel messages received by the client"])
p("C11","Each channel request is carried out once and answered once, in order",
 "A shell or exec request on an open channel starts exactly one process with exactly the requested command, and nothing else does; a message for a channel number that is not open reaches no process and starts none. Each request that asks for a reply gets exactly one, on its own channel and in request order: success if and only if a process was started for it, failure for anything unsupported, malformed or refused; requests that do not ask for a reply get none. Every session channel open is answered exactly once with the opener's number and a number unique among that connection's open channels.",
 ["histories","inputs","schedules"],"every sequence of opens, requests and closes on interleaved channels, including unsupported ones and failing process starts",
 NOTEST+"request dispatch.",[S,AR,CH,SE],
 [("request dispatch and reply",S+" receive"),("slot allocation",AR+" insert/remove"),("request parser",SE+" SessionRequest::parse")],
 [("channels","open channels by server number",S)],["spawn handler calls","channel replies on the wire"])
p("C12","No single peer or fault can take the server down or disturb others",
 "No bytes from any client, authenticated or not, no disconnect, read or write error at any point, and no failure of a process or of starting one, ever stops the server or disturbs another connection. At worst the connection concerned is ended; every other connection keeps all its guarantees and new connections are still accepted and served.",
 ["inputs","fault_sequences","schedules","crash_points"],"every byte stream at every protocol stage, every point at which a connection or process can fail, beside any number of healthy connections",
 NOTEST+"error path of the server; all connections share one task, so one panic ends them all.",[S,H,PK,ID,CP,MM,CH,SE,UA,DA],
 [("errors end only the connection's own future",S+" start"),("length checks on untrusted sizes",PK+" parse, "+H+" In::recv")],[],["server task alive","healthy sessions served in full","a fresh client served after the faults"])
p("C13","The server never stalls: progress is bounded once peers make progress",
 "Once faults stop and peers read and write again, every outstanding obligation (handshake step, authentication answer, channel reply, data transfer, close) is met after finitely many deliveries; no wake-up is lost, nothing written is left unflushed and the server never spins without I/O progress. A connection or process that is stalled, at whatever point, delays neither other connections nor the acceptance of new ones.",
 ["schedules","fault_sequences"],"every order of readiness events, spurious and coalesced wake-ups, back-pressure and stalls of arbitrary length",
 NOTEST+"scheduling behaviour; lost wake-ups need particular interleavings.",[S,SY,H],
 [("lock hand-over wakes waiters",SY+" LocalMutexGuard::drop"),("one future per connection",S+" start")],
 [("queue","wakers waiting for the write half",SY)],["quiescence with unmet obligations","polls without I/O progress"])
p("C14","Ended channels and connections release everything they held",
 "When a connection ends for any reason (disconnect message, end of stream, error in either direction, protocol violation, failed handshake or authentication) the server promptly drops its transport in both directions and every process's input, output and error pipe belonging to it. A channel's process input is dropped on the client's end-of-file or close, and the pipes of a finished session are dropped while the connection lives on. Memory is released too: without connections the server is back to what it had before any, and neither the number of channels that have come and gone nor the number of messages on a channel makes it hold more.",
 ["crash_points","histories","schedules"],"every point of a connection's life at which it can end",
 NOTEST+"teardown.",[S,AR],
 [("ownership by the connection's future",S+" Client"),("slot removal",AR+" remove")],[],["drop of transport halves and process pipes"])
p("C15","Flow control windows are honoured in both directions",
 "The server never sends more channel data than the window the client granted for that channel, nor a data message larger than the client's stated maximum, and it resumes when the window is extended. A client that itself respects the window the server granted can always go on sending: consumed input is credited back, so transfers of any size complete. While a client grants no window, or takes nothing off its connection, its processes are held back: the server takes only a bounded amount of their output ahead. What a client sends beyond the window it was granted does not reach a process.",
 ["schedules","histories","inputs"],"every initial window and maximum packet size, every pattern of window adjustments, output and input volumes beyond the windows",
 NOTEST+"windows; violations need output to outrun adjustments.",[S,CH],
 [("window bookkeeping",S+" receive/send_channel")],[("window","bytes the server may still send",S+" Channel")],["channel data and window adjustments on the wire"])
p("C16","scp sink: an acknowledged file is complete and exact",
 "When the receiving scp acknowledges a file after its contents, the destination holds exactly the bytes the sender transmitted for it, whatever the size, content, splitting or interruption of the stream, and it replaces any earlier contents. Files acknowledged before a later failure stay intact.",
 ["fault_sequences","inputs","crash_points"],"every split, interrupted call, short read or write, truncation and error at any call, for any sequence of files",
 "nora_scp has no tests.",[SC],[("header, ack, copy, ack loop",SC+" receive")],[],["acks on stdout","files on disk"])
p("C17","scp sink writes only where it was told to",
 "The receiving scp creates, truncates or changes no file other than the destinations named on its command line or, in directory mode, plain file names directly inside the target directory, spelled exactly as in the header. A header that is incomplete, malformed or names a path outside the directory changes nothing.",
 ["inputs","fault_sequences","crash_points"],"every header text and every point at which the stream can be cut",
 "nora_scp has no tests.",[SC],[("header parsing and destination choice",SC+" receive/read_header")],[],["paths opened for writing"])
p("C18","scp reports every failure: never an ack or success exit for a bad copy",
 "If the stream ends early, the sender breaks the protocol, or any read, write, open or directory operation fails, scp sends no final acknowledgement for the file concerned and exits with a failure status. It exits with success only if every expected file was transferred completely, and interrupted or partial system calls alone never make it fail.",
 ["fault_sequences","crash_points"],"every failing system call and every truncation point, in both sink and source mode",
 "nora_scp has no tests.",[SC],[("error propagation to main",SC+" main/start")],[],["exit status","bytes on stdout"])
p("C19","scp source sends each file faithfully and in step with the sink",
 "The sending scp emits for each named file, in order, a header with the file's name and exact size, then exactly its contents and a terminating zero byte, sending headers and contents only after the sink's corresponding acknowledgement. A sink fed this stream recreates the files exactly, and a sink's refusal makes it stop with a failure.",
 ["inputs","fault_sequences","schedules"],"every file content and size, every splitting of reads and writes, every acknowledgement timing or refusal",
 "nora_scp has no tests.",[SC],[("send loop",SC+" send")],[],["bytes on stdout in relation to acks read"])
p("C20","sshd admits only clients that prove possession of an ed25519 key",
 "The example daemon starts a session only for a client whose ed25519 signature, by the key it presents, verifies over this very session's authentication data. The none method, passwords, other algorithms, malformed keys, and signatures that are forged, replayed from another session, or made for another user or key, and keys of small order, for which anyone can make signatures, are always refused without harm to the daemon.",
 ["inputs","histories","schedules"],"every authentication attempt, including credentials captured from other connections",
 "nora_sshd has no tests.",[D,S,UA],[("signature verification",D+" authenticate")],[],["authentication answers","processes started"])
p("C21","sshd survives hostile clients, failing accepts and failing commands",
 "No client behaviour, failing or interrupted accept, unusable user name, empty or non-existent command, or dying process ever terminates the example daemon or affects another client's session. A command that cannot be started is answered with a failure on its channel, and a client that connects while accepting fails is accepted once that works again, without a long delay.",
 ["inputs","fault_sequences","schedules"],"every client byte stream, spawn error, accept error and process death at any time",
 "nora_sshd has no tests.",[D,S],[("accept and spawn error handling",D+" accept/spawn")],[],["daemon alive","healthy sessions served in full"])
p("C22","sshd runs the requested command faithfully and relays its outcome",
 "An exec request runs exactly the program and arguments obtained by splitting the command at ASCII whitespace, and a shell request runs the configured shell, both in the daemon's own directory and environment; the channel is connected to that process's standard input, output and error and to no other's. The exit code the client receives is the process's own, and a process killed by a signal is never reported as successful. The daemon itself ends no process whose channel is open.",
 ["inputs","schedules","histories"],"every command line, concurrent sessions of the same and different users, every exit order",
 "nora_sshd has no tests.",[D,S],[("spawn",D+" spawn")],[],["program, arguments and pipes of processes started","exit-status message"])
p("C23","What the server does not support is refused, and refusing harms nothing",
 "After authentication every message of a kind the server does not know (global requests included) is answered, in order, by one UNIMPLEMENTED message with that packet's sequence number, and every channel open of a type other than session, whatever data follows it, by one open failure with the opener's number and the reason for unknown channel types. Extended data from the client, which no process has a use for, is passed over. None of this ends the connection, takes up a channel, starts a process, reaches a process or disturbs what goes on in other channels at that time; a keep-alive or forwarding request never costs a client its session.",
 ["inputs","histories","schedules"],"every unknown message number and channel type with any contents, at every point between and during channel operations",
 NOTEST+"server's handling of messages it has no use for.",[S,MM,CH,CC],
 [("unknown message",S+" receive"),("channel type check",S+" receive"),("sequence number of the packet received",CC+" sequence_number")],[],["UNIMPLEMENTED and open failure messages on the wire"])
p("N01","Message encodings round-trip and parse totally",
 "For every protocol message value, parsing its serialization gives the same value back, and parsing arbitrary bytes returns a value or an error without panicking.",
 ["inputs"],"every message value and byte string",
 "Tests round-trip one value per message type.",[MM,CH,SE,UA,KI,EC,DA],[("parse/serialize pairs",MM)],[],["return values"])
p("N02","Public data types accept exactly their documented values",
 "Name lists, ASCII strings and identification strings are accepted exactly when they satisfy their documented constraints, and iterating a name list yields its names in order.",
 ["inputs"],"every byte string",
 "Tests use three fixed strings.",[DA,"nora_ssh_core/src/identifier.rs"],[("constructors",DA)],[],["return values"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
