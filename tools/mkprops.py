#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)
UT="The repository's tests are single-threaded unit tests of leaf containers and codecs (16 programs, one process each, no packet is ever exchanged between two endpoints, no time passes under their control); "
p('C01','Original-order flows deliver every message once, intact, in order',
 "On a flow received in original queuing order, the messages handed to the receiving application are, in queuing order and byte for byte, a subset of the messages the sender queued, each at most once, and every message whose sending was not abandoned is delivered before any later one. While receipt is held nothing is delivered, and everything received in the meantime is delivered once the hold is lifted. A flow that concludes without error has delivered every message that was not abandoned.",
 ['schedules','inputs','fault_sequences','histories'],"For every message size and number, write pattern, receive-order change, buffer size, set of abandoned messages, and every pattern of packet loss, duplication, reordering, delay, corruption, outage, endpoint stall and peer crash.",
 UT+"the fragmentation/acknowledgement/reassembly code is not executed by any test.",
 ['src/SendFlow.cpp','src/RecvFlow.cpp','src/Session.cpp','include/rtmfp/IndexSet.hpp'],
 [('fragmentation and sequence numbering','src/SendFlow.cpp basicWrite/assembleData'),('forward sequence number of abandoned fragments','src/SendFlow.cpp findForwardSequenceNumber'),('reassembly and in-order delivery','src/RecvFlow.cpp insertFragment/tryDelivery/deliverMessage')],
 [('receive buffer and received set','fragments received and not yet delivered; sequence numbers seen','src/RecvFlow.cpp')],['message callback of the receiving flow','completion callback of the receiving flow'])
p('C02','Network-order flows deliver every message once and intact',
 "On a flow received in network arrival order, every delivered message is byte for byte one the sender queued, carries its own sequence number and fragment count, and is delivered at most once; every message that was not abandoned is delivered by the time the flow concludes without error. The receiver is told whenever the contiguously received prefix grows over a former gap, so that an external reorder buffer never waits for a message that was already received or can no longer come.",
 ['schedules','inputs','fault_sequences','histories'],"For every message mix, interleaving of fragments, abandonment pattern, order change during the flow, and pattern of loss, duplication, reordering, delay and corruption.",
 UT+"no test delivers fragments out of order or twice.",
 ['src/RecvFlow.cpp','src/SendFlow.cpp'],
 [('network-order delivery of complete messages','src/RecvFlow.cpp tryDelivery'),('gap-merge notification','src/RecvFlow.cpp onData')],None,['message callback','cumulative-ack-merge callback'])
p('C03','Transfer resumes and finishes once faults stop; no spurious session loss',
 "Once faults stop, within a bounded time every open flow over a live session delivers or abandons everything queued on it, idle writers are told that they may write, and nothing stays blocked by lost acknowledgements, exhausted receive buffers that were since emptied, or closed congestion windows. A session between two live endpoints ends only because one side closed it, it was unused for its idle limit, it was replaced by a newer session that its peer opened from the same address, or its peer stayed unreachable for its retransmission limit; an unreachable peer is detected no later than that limit allows.",
 ['schedules','fault_sequences','configurations','histories'],"For every finite sequence of loss bursts, outages, stalls, clock steps, receiver holds and blocked local interfaces followed by a fault-free period, and every keepalive, retransmission and idle limit.",
 UT+"no test runs a retransmission, persist, keepalive or idle timer, and liveness cannot be sampled by fixed cases.",
 ['src/Session.cpp','src/SendFlow.cpp','src/RecvFlow.cpp'],
 [('retransmission timeout and burst alarm','src/Session.cpp'),('zero-window buffer probe','src/SendFlow.cpp setPersistTimer'),('delayed acknowledgement','src/Session.cpp, src/RecvFlow.cpp scheduleAck'),('keepalive ping','src/Session.cpp')],None,['delivery, writable and exception callbacks'])
p('C04','A write receipt tells the truth about its message',
 "For every queued message the receipt ends, and its finish callback runs, exactly once, and exactly one of delivered or abandoned is then true, permanently; delivered means that every byte of the message was received by the far end of the flow. A message whose start deadline, finish deadline, no-retransmission setting or parent's abandonment applies is abandoned by that rule and not otherwise: never before the deadline, never when it was already delivered, and no part of it is sent or re-sent once the rule applies.",
 ['schedules','inputs','fault_sequences','histories'],"For every combination of deadlines, retransmission switch, parent chain, manual abandonment at any point (including from within callbacks), flow or session end, and every network behaviour.",
 UT+"receipts are never created by a test.",
 ['src/WriteReceipt.cpp','src/SendFlow.cpp','include/rtmfp/WriteReceipt.hpp'],
 [('receipt usefulness and deadlines','src/WriteReceipt.cpp'),('send queue trimming on deadline','src/SendFlow.cpp trimSendQueue'),('receipt completion on acknowledgement','src/SendFlow.cpp ackRange')],None,['receipt state and finish callback'])
p('C05','Flow opening, return association, completion and rejection are faithful',
 "Every new flow is announced exactly once to the far application (to the flow it returns for when it is a return flow, otherwise to the endpoint) with exactly the metadata it was opened with, before any of its messages; a flow not accepted then, or rejected later, makes the opener's exception callback run once with the rejecter's reason. An accepted flow that is not locally closed runs its completion callback exactly once, without error only if the sender closed it and everything not abandoned was received, and with error when its session ends first. After a flow is locally closed none of its callbacks run, and a sender's flow gets at most one exception.",
 ['schedules','inputs','fault_sequences','histories'],"For every sequence of open, return-open, accept, reject, close and session-close calls on either side at any moment, including inside callbacks, under every network behaviour.",
 UT+"no test opens a flow.",
 ['src/Flow.cpp','src/SendFlow.cpp','src/RecvFlow.cpp','src/Session.cpp'],
 [('flow start-up options and association','src/Session.cpp onUserData, src/SendFlow.cpp'),('rejection and exception report','src/RecvFlow.cpp close, src/SendFlow.cpp onExceptionReport'),('completion','src/RecvFlow.cpp closeAndNotify')],None,['flow announcement, completion and exception callbacks'])
p('C06','Sessions open to the right peer, agree on both ends, or fail visibly',
 "A flow opened toward an endpoint name reaches only an endpoint whose certificate that name selects, directly or through redirectors and introducers, however many candidate addresses answer, and whatever order or time the asynchronous cryptographic work takes. Concurrent opens toward the same peer, including simultaneous opens from both ends, share one session, and both ends of an open session hold each other's certificate and matching nonces. If no session can be established, the flow's exception callback runs within the overall session attempt limit of 95 seconds, and if the peer is reachable and willing the session opens. A hello that names no endpoint or opening attempt of the receiver reaches only the application's unmatched-hello callback, and a later flow toward a peer with an open session joins it at once.",
 ['schedules','fault_sequences','histories','configurations'],"For every set of concurrent opens, candidate addresses and delays, redirect and forward topology, glare timing, endpoint restart, packet loss, duplication, delay and asynchronous crypto completion order.",
 UT+"no test performs a handshake.",
 ['src/RTMFP.cpp','src/Session.cpp'],
 [('initiator state machine','src/Session.cpp onRHello/onRIKeying'),('glare resolution','src/Session.cpp'),('responder','src/RTMFP.cpp onIIKeying'),('opening-session lookup and merge','src/RTMFP.cpp')],None,['announced flows, far certificate and nonces at both ends, packets on the wire'])
p('C07','Handshake: no state or costly work for unverified peers, no forgery accepted',
 "A responder keeps no per-peer state and does no signature, certificate or key-agreement work for a source address until that address has returned a cookie issued to it no more than the cookie lifetime (95 seconds) ago, and never has more than its fixed limit of such operations outstanding. A session never opens on keying material whose certificate or signature does not verify, that is not the peer that was asked for, or that was altered or taken from another handshake (another address, cookie, session or exchange; a verbatim repeat from the same address within the cookie lifetime is the same handshake), and an off-path attacker who cannot read the handshake can neither redirect, hijack nor tear down an established session.",
 ['inputs','schedules','histories','fault_sequences'],"For every sequence of attacker-sent, replayed, altered, misaddressed and stale handshake packets interleaved with legitimate handshakes and traffic.",
 UT+"no test feeds a handshake packet.",
 ['src/RTMFP.cpp','src/Session.cpp'],
 [('address-bound cookie','src/RTMFP.cpp makeCookie/checkCookie'),('bounded asynchronous work','src/RTMFP.cpp onIIKeying'),('cookie change','src/RTMFP.cpp, src/Session.cpp'),('authentication of responder and initiator','src/Session.cpp onRIKeying, src/RTMFP.cpp onIIKeying')],None,['calls made to the crypto adapter, packets on the wire'])
p('C08','Encrypted sessions reject tampering, forgery and replay as configured',
 "With the Flash-communication crypto profile both ends of a session derive matching keys and nonces, every packet of one end is decrypted correctly by the other, and sessions still establish and carry data whichever combination of message authentication and session sequence numbers the two ends send or require, as long as the requirements are compatible. When message authentication is negotiated no altered, truncated, or foreign packet is accepted, and when session sequence numbers are negotiated no packet is accepted twice or from before the replay window, while in-window reordered packets are still accepted. An endpoint that requires either feature never opens a session without it. When both ends open at once the session still establishes, and another identity that appears at the address of an open session cannot take that session down.",
 ['inputs','configurations','schedules','fault_sequences'],"For every pair of configurations (authentication off, on, required, tag length; sequence numbers off, on, required; key-agreement groups) and every bit flip, truncation, replay, reordering and duplication of packets.",
 UT+"the OpenSSL adapter test checks primitives, not a session under attack.",
 ['src/FlashCryptoAdapter.cpp','src/FlashCryptoAdapter_OpenSSL.cpp','include/rtmfp/FlashCryptoAdapter.hpp'],
 [('option negotiation and key derivation','src/FlashCryptoAdapter.cpp FlashCryptoKey'),('packet authentication and replay window','src/FlashCryptoAdapter.cpp decrypt')],None,['packets accepted by a session, calls on the session key'])
p('C09','Closing and shutdown end everything, report once, and release everything',
 "Closing a session or shutting an endpoint down, gracefully or abruptly, at any moment and in any state including mid-handshake and from within callbacks, ends every flow of it with its ending callback (and a session no flow uses any more ends by itself after its idle limit), lets the far end learn of it, and reports shutdown completion exactly once, in bounded time even if peers are silent, at once if abrupt. After that no callback of the endpoint runs, nothing is sent, opening new flows fails, and once the endpoint and its handles are dropped and lingering timers passed everything it allocated is released, without touching released memory.",
 ['schedules','crash_points','histories','fault_sequences'],"For every point of a handshake or transfer at which a close or shutdown or peer crash happens, and every network behaviour around it.",
 UT+"no test closes a session or shuts an endpoint down.",
 ['src/RTMFP.cpp','src/Session.cpp','src/SendFlow.cpp','src/RecvFlow.cpp','include/rtmfp/Retainer.hpp'],
 [('near close and far close linger','src/Session.cpp'),('shutdown','src/RTMFP.cpp shutdown/checkShutdownComplete')],None,['shutdown-complete, exception and completion callbacks; allocation balance'])
p('C10','Sessions survive genuine address changes and only genuine ones',
 "When a peer's address changes during a session (a NAT rebinding or a move), the session follows it after the new address proves itself, without loss, duplication or reordering of user messages, notifies the application, and resumes within a bounded time. Packets of the session replayed or copied from any other address never move the session to an address that did not answer a fresh, unforgeable challenge, and never disturb the user data.",
 ['schedules','fault_sequences','histories','inputs'],"For every sequence of rebindings and address swaps on either or both ends, and off-path replays, interleaved with any loss, delay and reordering.",
 UT+"no test has addresses.",
 ['src/Session.cpp','src/RTMFP.cpp'],
 [('mobility check by ping','src/Session.cpp'),('address index maintenance','src/RTMFP.cpp onSessionAddressDidChange')],None,['far address, address-change callback, destination of packets'])
p('C11','Sending respects congestion window, receiver window and packet limits',
 "A sender never starts a packet of user data when its unacknowledged bytes already fill its congestion window, never sends a new fragment beyond the receive buffer the receiver last advertised (except one probe at a time), and never emits a datagram larger than the protocol's limits. The congestion window never falls below its floor, falls on loss, explicit congestion notification or timeout, does not grow by more than the protocol allows per acknowledgement nor while it is not used, and the outstanding byte count returns exactly to zero when everything is acknowledged or abandoned.",
 ['schedules','fault_sequences','inputs','histories'],"For every loss, duplication, reordering and delay pattern of data and acknowledgements and every application reading and writing pattern on any number of flows.",
 UT+"no test sends data.",
 ['src/Session.cpp','src/SendFlow.cpp'],
 [('congestion window update','src/Session.cpp updateCWND'),('outstanding accounting','src/Session.cpp, src/SendFlow.cpp onAck/onLoss'),('receive window','src/RecvFlow.cpp assembleAck')],None,['packets on the wire, congestion window and outstanding bytes reported by flows'])
p('C12','Higher-priority flows go first; time-critical traffic is signalled and yields',
 "When a sender can transmit user data, new data of a lower-priority flow is never sent while a higher-priority flow of the same session has untransmitted data that its receiver has room for, and messages of one flow are first sent in queuing order. Packets carry the time-critical mark exactly when they carry data of a flow above routine priority; a receiver reports reception of time-critical data to its other peers while it lasts and not for longer than the protocol's interval, and a sender that is told so, or is itself sending time-critical data, keeps its other transfers from growing aggressively.",
 ['schedules','inputs','fault_sequences','histories'],"For every set of flows, priorities and priority changes, write patterns, window states, peers and network behaviours.",
 UT+"no test has two flows.",
 ['src/Session.cpp','src/RTMFP.cpp','src/Interface.cpp','src/SendFlow.cpp'],
 [('per-priority transmit queues','src/Session.cpp, src/Interface.cpp'),('time-critical flags','src/Session.cpp, src/RTMFP.cpp onSessionReceivedTC/shouldSessionReportTCR')],None,['order and flags of chunks on the wire'])
p('C13','Congestion marks are counted, echoed and obeyed; ECN-blind paths are found',
 "While congestion marks arrive, every acknowledgement carries the running count of marked packets received, never losing, inventing or double-counting one; a sender shown a higher count reduces its congestion window as for loss, and at most once per round trip of acknowledgements. A sender marks its data packets as ECN-capable only while the far end's reports show that marking works, stops when reports are missing, and never marks non-data packets; data delivery is unaffected on paths that mark, bleach or drop ECN.",
 ['schedules','fault_sequences','inputs'],"For every pattern of marking, bleaching and ECN-dependent loss by the network, and of duplication, reordering and loss of packets and reports.",
 UT+"no test sets a traffic class.",
 ['src/Session.cpp'],
 [('ECN probing and report','src/Session.cpp')],None,['traffic class and report chunks on the wire, congestion window'])
p('C14','Timers fire once each when due, in order, as scheduled and rescheduled',
 "A scheduled timer fires when the clock has reached its time and never before, one-shot timers once, recurring ones at multiples of their interval with or without catching up as configured, in the order of their times; a cancelled timer never fires again, a rescheduled one fires only for its last schedule, and the reported time to the next event is never later than the earliest timer. This holds when timers schedule, reschedule and cancel themselves or each other from within firing callbacks, however the clock advances, and no timer is starved or leaked.",
 ['schedules','histories','inputs'],"For every program of schedule, reschedule, cancel and clear operations from inside and outside callbacks and every sequence of clock advances, stalls and steps.",
 "No test schedules timers on purpose; the programs that use them incidentally follow one script on the wall clock. Callbacks that reshape the list in the middle of a sweep, equal times and long stalls are combinations it does not reach.",
 ['src/Timer.cpp','include/rtmfp/Timer.hpp'],
 [('ordered timer set','src/Timer.cpp TimerList'),('recurrence','src/Timer.cpp Timer::basicFire')],None,['timer callbacks, next-fire interval'])
p('C15','Run loops dispatch every ready event and deferred task and only those',
 "Under either run loop (select or epoll), a descriptor's callback runs only while registered, for a condition that holds, and within a bounded number of cycles of it holding; deferred tasks run exactly once, in the order given, on the loop's thread, after the event that deferred them; timers fire when due and the loop never sleeps past a due timer or a pending task. This holds when callbacks register, unregister or close descriptors (also reused ones), schedule, defer, clear or stop from within any callback, and when the system calls are interrupted or fail transiently.",
 ['schedules','histories','fault_sequences'],"For every program of (un)registrations, deferrals, timers and stops from inside callbacks and every readiness sequence, spurious wake-up and interruption of the kernel.",
 "test/testperform and test/testreorder use a run loop incidentally, on the real kernel, which decides the readiness order.",
 ['src/RunLoop.cpp','src/SelectRunLoop.cpp','src/EPollRunLoop.cpp','include/rtmfp/RunLoop.hpp'],
 [('deferred task queue','src/RunLoop.cpp'),('descriptor table','src/SelectRunLoop.cpp, src/EPollRunLoop.cpp')],None,['callbacks; simulated system calls'])
p('C16','Cross-thread tasks run exactly once, in order, on the loop thread',
 "Every task handed to a performer from any thread runs at most once, on the run loop's thread, in the order handed over per calling thread, and exactly once if the performer is not closed first; a call that waits returns only after its task ran (or after it is certain that it never will because the performer was closed), a call on the loop's own thread that does not wait returns before its task runs, one that waits there never deadlocks, and no wake-up is lost. Closing the performer at any moment neither runs a task afterwards, nor leaves a waiting caller blocked, nor touches released memory.",
 ['schedules','fault_sequences'],"For every interleaving of any number of calling threads, and the loop thread (which closes the performer at any moment) at every basic block, lock, pipe and condition operation, with stalled threads, spurious wake-ups and interrupted waits.",
 "test/testperform runs two real threads through one script; the OS picks a handful of interleavings, and it never closes a performer in use.",
 ['src/Performer.cpp','include/rtmfp/Performer.hpp','src/PerformerPosixPlatformAdapter.cpp'],
 [('mutex-protected queue with pipe signal','src/Performer.cpp')],None,['task executions, return of waiting calls'])
p('C17','The POSIX platform adapter moves datagrams faithfully despite socket errors',
 "Every datagram the endpoint hands to the platform is sent at most once, whole, to the given address with the given traffic class over the right socket, and every datagram a socket yields is handed to the endpoint exactly once with its true source, interface and traffic class; transient socket errors, blocked sockets and interruptions lose at most the datagram concerned and never stall or close an interface that works. Work submitted for the main or worker queue runs once, in submission order and after the submitting call, and shutting the adapter down stops all of it, closes its sockets once, and reports shutdown once.",
 ['schedules','fault_sequences','inputs'],"For every sequence of datagram arrivals, transient and permanent system call errors, blocked writes, and shutdown moments.",
 "No test opens a socket through the adapter, and error returns from the kernel cannot be provoked at chosen points by tests.",
 ['src/PosixPlatformAdapter.cpp','include/rtmfp/PosixPlatformAdapter.hpp','src/PerformerPosixPlatformAdapter.cpp'],
 [('socket I/O','src/PosixPlatformAdapter.cpp'),('timer and write-notification plumbing','src/PosixPlatformAdapter.cpp')],None,['simulated system calls, datagrams seen by the endpoint'])
p('C18','The reorder buffer releases messages in order, on time, once each',
 "Messages inserted in any order are released at most once each, in increasing sequence order except those marked late, immediately when nothing is missing before them, and otherwise no later than the reorder window after they arrived or as soon as the gap is closed or declared permanent, whichever is first. A message arriving after its place was passed is released at once and marked late, flushing releases everything, and after closing nothing is released; this holds also when the buffer is flushed, reconfigured or closed from within the release callback.",
 ['schedules','histories','inputs'],"For every arrival order, duplicate, gap, time pattern, window change and re-entrant call.",
 "test/testreorder checks one script of a dozen insertions; arrival orders, windows and re-entrant calls are not sampled.",
 ['src/ReorderBuffer.cpp','include/rtmfp/ReorderBuffer.hpp'],
 [('ordered holding map and delivery timer','src/ReorderBuffer.cpp')],None,['release callback'])
p('C19','Flow synchronization barriers hold until all members arrive, then release',
 "A flow that reaches a synchronization barrier delivers nothing past its synchronization message until the stated number of flows have reached the barrier, or the barrier is reset or its manager dropped; then every held member is released at once, in whatever order they arrived, and goes on in order without losing or repeating anything. Barriers of different identifiers do not affect each other, members that close, are rejected or lose their session while held do not upset the others, and a flow that is not waiting at a barrier, or is received in network order, is never suspended. Synchronization messages are told apart from all other messages.",
 ['schedules','histories','inputs'],"For every set of overlapping barriers, member counts, arrival orders, closings and time-outs, over every network behaviour.",
 "test/testflowsync checks the message codec and counts three barriers without any flow; nothing is ever suspended, closed or lost.",
 ['src/FlowSyncManager.cpp','include/rtmfp/FlowSyncManager.hpp'],
 [('barrier bookkeeping','src/FlowSyncManager.cpp')],None,['delivery of messages on member flows'])
p('C20','Media connections map commands, streams and messages one to one',
 "On a TC connection every command gets exactly one result, error or connection-closed answer, delivered to the handler that sent it; every stream created is matched with its own server-assigned stream, and messages, status events and media arrive on the stream they were sent on, in sending order when ordered, with their type, timestamp and content intact. Closing or losing the connection at any moment, including from within its callbacks, answers everything outstanding, ends every stream once, and lets no callback run afterwards.",
 ['schedules','histories','inputs','fault_sequences'],"For every interleaving of connects, commands, stream creation, publish/play, deletion, messages and disconnections on either side and every network behaviour and receive order.",
 "Only the message codecs are unit tested; the connection classes are never instantiated by a test.",
 ['src/TCConnection.cpp','include/rtmfp/TCConnection.hpp','src/TCMessage.cpp'],
 [('transaction table','src/TCConnection.cpp'),('stream table and net-stream transport','src/TCConnection.cpp')],None,['callbacks of connection and streams'])
p('C21','Redirector clients stay registered, recover, and obey only their redirector',
 "While a redirector is reachable a client becomes and stays registered with it: it logs in with correct credentials, announces its current addresses and capability settings after every change, and after losing the session reconnects with bounded, non-hammering retries until told to stop. It reports its reflexive address and connection status truthfully, drops to draining or disconnects when told, answers introductions forwarded by the redirector in the configured way, keeps its session alive and gives up on a dead one within the configured periods, and after closing makes no more attempts and runs no more callbacks.",
 ['schedules','histories','fault_sequences'],"For every sequence of redirector refusals, outages, restarts, misbehaviour, address changes and client operations.",
 "No test covers the redirector client.",
 ['src/RedirectorClient.cpp','include/rtmfp/RedirectorClient.hpp'],
 [('registration state machine','src/RedirectorClient.cpp')],None,['messages received by the redirector, client callbacks'])
p('C22','Malformed and hostile input never crashes, hangs or harms other sessions',
 "Whatever bytes arrive, from strangers or from an authenticated peer, at the packet, chunk, option, message, command or media layer, the endpoint never crashes, reads or writes outside its data, loops without end or grows its memory beyond what its buffers and the data received justify. Other sessions and flows go on undisturbed, and a session receiving damaged packets still delivers its good data.",
 ['inputs','fault_sequences','histories'],"For every packet content and every sequence of such packets, at every session state.",
 UT+"the codecs are unit tested with a few well-formed samples; no test feeds the protocol engine hostile bytes.",
 ['src/Session.cpp','src/RTMFP.cpp','src/RecvFlow.cpp','src/SendFlow.cpp','src/PacketAssembler.cpp','src/VLU.cpp','src/TCConnection.cpp','src/TCMessage.cpp','src/AMF.cpp'],
 [('chunk parsing and bounds checks','src/Session.cpp onReceivePacket, src/VLU.cpp'),('receive buffer limits','src/RecvFlow.cpp')],None,['process state; deliveries of other sessions'])
p('C23','Round-trip and retransmission timing track the path',
 "Round-trip measurements never exceed the real elapsed round trip between the packet and its echo, measured with coarse 4 ms time ticks, and never come out wildly short through wrap-around, stalls, idle periods, retransmission or reordering. The smoothed round trip stays within the range of the measurements, and the effective retransmission time stays between its protocol minimum and maximum, backs off on consecutive time-outs and recovers after a new measurement.",
 ['schedules','fault_sequences','histories'],"For every delay pattern, stall, idle period (longer than the timestamp range included), clock offset between ends, and loss pattern.",
 UT+"no test measures a round trip.",
 ['src/Session.cpp','src/RTMFP.cpp'],
 [('timestamp and echo','src/Session.cpp, src/RTMFP.cpp getCurrentTimestamp'),('RTT filter and backoff','src/Session.cpp')],None,['RTT, RTO values reported by flows; timestamps on the wire'])
p('C24','Codecs round-trip and reject exactly the malformed (AMF, VLU, URI, hex, address)',
 "Encoding then decoding any AMF value, variable-length integer, address, hex string or media header gives the value back, and decoding any byte string either fails cleanly or consumes exactly the bytes of one value.",
 ['inputs'],"For every value and byte string.",
 "The unit tests sample a few values.",
 ['src/AMF.cpp','src/VLU.cpp','src/Address.cpp','src/Hex.cpp','src/URIParse.cpp','src/Media.cpp','src/Checksums.cpp','src/IndexSet.cpp'],
 [('encoders and decoders','src/AMF.cpp, src/VLU.cpp, src/Address.cpp, src/Hex.cpp')])
if __name__=='__main__':
    for d in P: print(json.dumps(d))
