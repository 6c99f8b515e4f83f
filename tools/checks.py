# What each check runs: scenario/profile mix, extra tags, time limits (seconds of search), and what was real.
NETM = {}


def net(**w):
    return {'net/' + k: v for k, v in w.items()}


COMPONENTS = {
    'net': dict(
        real='src/: RTMFP, Session, Flow, SendFlow, RecvFlow, WriteReceipt, ISession, SendFrag, packet assembly, VLU, IndexSet, List, Timer, Address, Checksums (everything the protocol engine consists of), 2-4 endpoints per run',
        stub='platform adapter (virtual clock, simulated datagram network, worker threads), crypto adapter (keyed-hash stand-in with certificates, signatures and key agreement that an oracle can open), the applications',
        measure='a hash over the sequence of flow bindings and first transmissions of every fragment, in order',
        assumptions=['the stand-in crypto is as strong as its keyed 64-bit hash within one run', 'application callbacks behave as the header comments require (they copy what they capture before closing the object that holds them)',
                     'threads beyond the platform seam do not exist in this engine: all entries are on one simulated run-loop thread']),
    'timer': dict(
        real='src/Timer.cpp and include/rtmfp/Timer.hpp: Timer, TimerList',
        stub='the clock and the loop that asks how long to sleep and fires what is due (with oversleeping, stalls and clock jumps)',
        measure='a hash over the sequence of firings (which timer, in which order, how late) and re-entrant actions',
        assumptions=['the loop calls fireDueTimers with a non-decreasing time']),
    'reorder': dict(
        real='src/ReorderBuffer.cpp with src/Timer.cpp and List.hpp',
        stub='clock, timer loop, and the flow that feeds it (messages delayed, overtaken, lost, late)',
        measure='a hash over the sequence of released messages and their late marks',
        assumptions=['insert is not called from inside the release callback (nothing in the repository does, and arrivals come from the run loop)']),
    'fsync': dict(
        real='src/FlowSyncManager.cpp, src/TCMessage.cpp framing, and the whole protocol engine under it (two endpoints)',
        stub='platform adapter, network and crypto as in the engine scenarios; the sending and receiving applications',
        measure='a hash over the sequence of deliveries (flow and sequence number)',
        assumptions=['the members of one barrier are as its synchronization messages say; wrong counts are injected as faults and held flows then wait for a reset']),
    'open': dict(
        real='src/: the whole protocol engine of 2-4 peers and 0-2 introducers: RTMFP, Session, Flow, SendFlow, RecvFlow and everything under them',
        stub='platform adapter (virtual clock, simulated datagram network, worker threads, slow asynchronous key work), crypto adapter (keyed-hash stand-in with certificates, signatures and key agreement), the applications and the introducer policy (forward, redirect, or both)',
        measure='a hash over the sequence of flow bindings, first transmissions of every fragment, cookies, keying answers and openings',
        assumptions=['a keying of a losing attempt that arrives after the winning session opened replaces that session: the protocol cannot tell it from a peer that started over, so such pairs are not judged', 'simultaneous opens of multi-homed peers over different addresses are not in glare for the protocol', 'redirects are not followed by an attempt that already has many candidate addresses', 'addresses that change hands may cost an attempt that met the wrong peer there']),
    'hs': dict(
        real='src/: the whole protocol engine of 2-5 honest endpoints: RTMFP, Session, StartupSession and everything under them',
        stub='platform adapter, network and crypto as in the engine scenarios; the applications; the attacker (harness code with addresses of its own, which may spoof any source and, in the on-path profile, sees every packet)',
        measure='a hash over the sequence of cookies issued, keying answers, openings',
        assumptions=['cookies live for whole seconds, so up to 96 s are allowed for', 'an on-path attacker may prevent or relay a handshake: only safety is demanded against it',
                     'endpoints that come back at the same address may need the session time limits before they reach each other again']),
    'flash': dict(
        real='src/FlashCryptoAdapter.cpp, src/FlashCryptoAdapter_OpenSSL.cpp over the installed OpenSSL, src/Hex.cpp, src/VLU.cpp, src/IndexSet.cpp and the whole protocol engine over them (2-3 endpoints)',
        stub='platform adapter and network as in the engine scenarios, the randomness of OpenSSL (seeded), the applications, the attacker (harness code that sees every packet and may alter, replay, reflect, splice and forge them and, in the on-path profile, rewrite keying components)',
        measure='a hash over the sequence of accepted packets (session key and packet number)',
        assumptions=['AES, SHA-256, HMAC and modular exponentiation of OpenSSL are correct', 'without negotiated authentication a 16-bit checksum is all there is: a run in which an altered packet passes it is judged no further',
                     'against an attacker who rewrites the keying exchange only safety is demanded']),
    'tc': dict(
        real='src/TCConnection.cpp (TCConnection, TCStream, RTMFPTCConnection), src/TCMessage.cpp, src/AMF.cpp, src/Media.cpp, src/URIParse.cpp, src/FlowSyncManager.cpp, src/ReorderBuffer.cpp, src/Timer.cpp and the whole protocol engine under them',
        stub='platform adapter, network and crypto as in the engine scenarios; the application; the media server (harness code on a real engine endpoint, well-behaved, failing or hostile)',
        measure='a hash over the sequence of connection and stream callbacks',
        assumptions=['the messages of a closed connection or deleted stream that are still on their way may be lost with it', 'stream commands queued before a stream opened may go out before or after what its onOpen handler sends',
                     'messages of a network-order flow may be dropped when they come after their successors, unless they are sequence-special']),
    'rd': dict(
        real='src/RedirectorClient.cpp, src/VLU.cpp, src/Address.cpp, src/Timer.cpp and the whole protocol engine under them',
        stub='platform adapter, network and crypto as in the engine scenarios; the HMAC (a keyed hash) and timer service the client leaves to its subclass; the application; the redirector (harness code on a real engine endpoint that refuses, crashes, restarts, misreports)',
        measure='a hash over the sequence of statuses',
        assumptions=['a refusal that is lost on the network is found out when the client next sends something (protocol behaviour)', 'what a handler of the connected status sends goes out before the credentials']),
    'evil': dict(
        real='src/: the whole protocol engine of three endpoints (packet, chunk, option, flow layers); in the tc/hostile part also TCConnection, TCStream, TCMessage, AMF, FlowSyncManager and ReorderBuffer against a hostile media server',
        stub='platform adapter, network and crypto as in the engine scenarios; the applications; the hostile peer (a real engine whose packets are mutated and forged with its own session keys by the harness) and the strangers (harness code)',
        measure='a hash over the sequence of honest deliveries and hostile messages delivered',
        assumptions=['a hostile peer cannot forge packets of other sessions (C07 and C08 examine that)', 'sanitizers make memory errors visible; memory growth is bounded by 1 MiB plus 20 times the bytes received', 'damage to packets of honest sessions is appended after the good chunks, or caught by the crypto layer']),
    'loop': dict(
        real='src/RunLoop.cpp, src/SelectRunLoop.cpp, src/EPollRunLoop.cpp, src/Timer.cpp',
        stub='select, epoll, close and the steady clock (link-time replacements with simulated descriptors), the callbacks',
        measure='a hash over the sequence of descriptor, deferred-task and timer callbacks',
        assumptions=['descriptors are unregistered before they are closed', 'epoll reports ready descriptors round robin, as Linux does', 'a loop that is not told to stop is run by one thread only']),
    'perf': dict(
        real='src/Performer.cpp on src/SelectRunLoop.cpp or src/EPollRunLoop.cpp, real threads run one at a time',
        stub='the thread scheduler (preemption at any basic block of Performer and run loop code and at every lock, pipe, condition and wait call), mutexes and condition variables, pipes, select, epoll, the clock',
        measure='a hash over the sequence of task executions and their callers',
        assumptions=['sequentially consistent memory', 'the performer is closed by the run loop\'s thread, or while the loop does not run']),
    'posix': dict(
        real='src/PosixPlatformAdapter.cpp, src/PerformerPosixPlatformAdapter.cpp, src/Performer.cpp, src/SelectRunLoop.cpp, src/EPollRunLoop.cpp, src/Timer.cpp and the whole protocol engine over them, 2-3 endpoints with a run-loop thread and optionally a worker thread each',
        stub='the system calls (sockets, options, sendmsg, recvmsg, pipes, select, epoll, clock), the thread scheduler, the network between the sockets, the crypto adapter, the application',
        measure='a hash over the sequence of datagrams sent and tasks run per endpoint',
        assumptions=['sequentially consistent memory', 'a datagram larger than the adapter\'s 8192-byte receive buffer may arrive cut off (protocol datagrams are at most 4256 bytes)', 'at most the one worker task already begun may overlap close()',
                     'endpoints that open flows to each other in the same instant may need the session retransmit limit to recover (protocol behaviour), so delivery is not demanded there']),
}

CHECKS = {
    'C01': dict(scn='net', mix=net(basic=4, harsh=2, windows=2, receipt=2, mobility=1, close=1)),
    'C02': dict(scn='net', mix=net(network=6, basic=2, harsh=1)),
    'C03': dict(scn='net', mix=net(windows=3, basic=2, harsh=2, rtt=1, prio=1, ecn=1, receipt=1, mobility=1, close=1)),
    'C04': dict(scn='net', mix=net(receipt=6, basic=2, harsh=1, close=1)),
    'C05': dict(scn='net', mix=net(close=4, basic=3, harsh=1, hs=1, receipt=1)),
    'C06': dict(scn='open', scenario='open, net', mix=dict(net(hs=4, close=1, basic=1), **{'open': 4, 'open/rough': 2})),
    'C07': dict(scn='hs', mix={'hs/off': 1, 'hs/onpath': 1}),
    'C08': dict(scn='flash', mix={'flash': 2, 'flash/onpath': 1}),
    'C09': dict(scn='net', mix=net(close=5, hs=2, harsh=2, basic=1)),
    'C10': dict(scn='net', mix=net(mobility=8, harsh=2)),
    'C11': dict(scn='net', mix=net(windows=5, basic=2, ecn=2, prio=1, harsh=1, receipt=1)),
    'C12': dict(scn='net', mix=net(prio=8, basic=1, harsh=1)),
    'C13': dict(scn='net', mix=net(ecn=8, basic=1, harsh=1)),
    'C14': dict(scn='timer', mix={'timer': 1}),
    'C15': dict(scn='loop', mix={'loop': 1}),
    'C16': dict(scn='perf', mix={'perf': 1}),
    'C17': dict(scn='posix', mix={'posix': 1}),
    'C18': dict(scn='reorder', mix={'reorder': 1}),
    'C19': dict(scn='fsync', mix={'fsync': 1}),
    'C20': dict(scn='tc', mix={'tc': 1}),
    'C21': dict(scn='rd', mix={'rd': 1}),
    'C22': dict(scn='evil', mix={'evil': 2, 'tc/hostile': 1}),
    'C23': dict(scn='net', mix=net(rtt=5, windows=2, basic=1, harsh=1, mobility=1)),
}
