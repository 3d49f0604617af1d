#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line). Edit here, then run."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

TR = "src/transport.c"
# ---------------------------------------------------------------- transport
p("T01", "A crash at any point never exposes a partial write or breaks the transport",
  "If a process dies at any instruction while using a transport, the next user that opens or locks the same arena sees exactly the frames that were committed (minus a prefix of the oldest frames whose eviction had begun), each with its full payload, and never sees the frame that was being written. The transport stays fully usable: it can be locked, read and written again.",
  ["crash_points", "histories"], "every crash point (between any two stores, including inside copies of several words) of every operation sequence up to the bound, from empty, partly filled, full and wrapped transports, for every later opener mode",
  "Tests kill a process at one hand-picked point (between alloc and commit); none stops inside eviction, inside the commit itself, or inside first initialisation.",
  [TR, "src/mtx.c", "src/robust.c"],
  [("two state pages, flipped by one byte store on commit; working page reset on lock", TR + ":a0_transport_commit/a0_transport_lock"), ("robust mutex released by the kernel when the owner dies", "src/robust.c")],
  ["a0_transport_init", "a0_transport_lock", "a0_transport_jump_head", "a0_transport_step_next", "a0_transport_frame"],
  [("committed state", "sequence range and offsets of the live frames", TR)])
p("T02", "The transport holds the newest contiguous run of committed frames",
  "After any sequence of allocations, commits and clears, the frames present are exactly the most recently committed ones, with consecutive sequence numbers and unmodified payloads, and the reported lowest and highest sequence numbers and emptiness agree with that. Sequence numbers of committed frames increase by one for the whole life of the arena and are never reused. A frame disappears only when a newer frame needs its space or by an explicit clear.",
  ["histories", "inputs"], "all reachable layouts for an alphabet of frame sizes and arena sizes, and all operation sequences to a depth",
  "Tests fill one or two arena sizes with one or two frame sizes; the wrap, eviction and reset corner cases depend on the exact combination of sizes and order.",
  [TR], [("slot search, eviction loop, head/tail bookkeeping", TR + ":a0_transport_alloc")],
  ["a0_transport_seq_low", "a0_transport_seq_high", "a0_transport_empty", "a0_transport_frame"],
  [("seq_low/seq_high/off_head/off_tail", "live range", TR)])
p("T03", "Allocated frames are in bounds, aligned, and never overlap live frames",
  "Every frame returned by an allocation lies entirely inside the arena and outside the transport's own header, is aligned for any type, and overlaps no frame that is still live. A request that cannot fit even in an empty transport is refused with the frame-too-large error and changes nothing, and every request that can fit succeeds. The advance query about eviction answers exactly whether the allocation would remove frames.",
  ["histories", "inputs"], "all reachable layouts for an alphabet of sizes that includes 0, exact fit, one off exact fit, and sizes near the integer limit",
  "Tests use a few fixed sizes; exact-fit and off-by-one sizes against every reachable layout, and sizes whose arithmetic wraps around, are not tried.",
  [TR], [("slot search with bound checks, interval intersection test", TR + ":a0_transport_find_slot")],
  ["a0_transport_alloc", "a0_transport_alloc_evicts"])
p("T04", "Stepping through a transport visits every live frame once, in order",
  "From the oldest frame, stepping forward visits every live frame exactly once in commit order and ends at the newest; stepping backward mirrors it. A reader whose current frame has been removed is moved to the oldest live frame by the next step forward, skips nothing that is live, is told its current frame is gone if it asks for it, and never sees another frame's bytes under the wrong sequence number. Jumping to a live frame's offset always works.",
  ["histories"], "all reachable layouts and all positions of an independent reader relative to the live frames, all step/jump/query operations",
  "Tests iterate over one or two fixed layouts, not over every reader position against every wrapped layout.",
  [TR], [("doubly linked frame offsets and sequence checks", TR + ":a0_transport_step_next/step_prev/jump")],
  ["a0_transport_step_next", "a0_transport_step_prev", "a0_transport_jump", "a0_transport_jump_head", "a0_transport_jump_tail", "a0_transport_has_next", "a0_transport_has_prev", "a0_transport_iter_valid", "a0_transport_frame"])
p("T05", "Concurrent users see commits whole and never see uncommitted frames",
  "Whatever the interleaving of writers and readers on one arena, no user ever sees a frame that has not been committed, and an allocation that is not committed has vanished once its lock is released. All users agree on one total order of committed frames, no committed write is lost or duplicated, and a user holding the lock sees nothing change under it.",
  ["schedules", "crash_points"], "all interleavings of 2-3 users (own handle, own mapping) up to a preemption bound, with at most one user dying at any point",
  "Tests run two threads freely; the scheduler explores an arbitrary handful of interleavings.",
  [TR, "src/mtx.c"], [("mutex around all accesses; working page reset at lock, unlock and after waiting", TR)],
  ["a0_transport_lock", "a0_transport_unlock", "a0_transport_wait", "a0_transport_frame"])
p("T06", "A waiter wakes for every satisfying change and times out only on time",
  "A user waiting on a transport for a condition returns successfully once another user commits a change that makes the condition true and keeps it true, whatever the interleaving, even if the committer or another waiter dies right after. A wait with a deadline returns a timeout error only when the deadline has passed, returns by then even if nothing ever happens, and holds the lock on return in all cases. A failing condition callback ends the wait with that error.",
  ["schedules", "crash_points"], "all interleavings of 1-2 waiters with 1-2 committers up to a preemption bound, every choice of when the deadline expires, every death point of the committer",
  "Tests wait with real sleeps, so the window between testing the condition and going to sleep is practically never hit.",
  [TR, "src/mtx.c"], [("condition variable broadcast on commit; predicate re-evaluated after every wake", TR + ":a0_transport_timedwait")],
  ["a0_transport_wait", "a0_transport_timedwait"])
p("T07", "Shutting down a handle releases every waiter of that handle and only those",
  "Once shutdown is requested on a transport handle, every wait in progress on that handle returns the shutdown error, later waits on it fail at once, and the shutdown call returns only after all of them have left. Waits through other handles on the same arena are unaffected and still complete on the next satisfying commit.",
  ["schedules"], "all interleavings of shutdown with 1-2 waiters on the same handle, a waiter on another handle, and a committer",
  "Tests exercise shutdown after a sleep, with the waiter already parked.",
  [TR], [("shutdown flag and waiter count under the mutex", TR + ":a0_transport_shutdown")],
  ["a0_transport_shutdown", "a0_transport_wait"])
p("T08", "Used space, resize and clear are sound",
  "The reported used space always covers every live frame, and shrinking the usable size down to it never damages a live frame; a smaller size is refused and changes nothing. After a resize the new size is what bounds later allocations. Clearing removes all frames, keeps sequence numbers increasing, and frees all the space.",
  ["histories", "inputs"], "all reachable layouts, with resize to every size in an alphabet around the used space and clear at every point",
  "Tests resize one or two layouts; the used-space figure depends on which frame was evicted last in a wrapped layout.",
  [TR], [("high water mark maintenance", TR + ":a0_transport_used_space/resize/clear")],
  ["a0_transport_used_space", "a0_transport_resize", "a0_transport_clear"])
p("T09", "Concurrent first use initialises an arena exactly once",
  "When several users open the same zeroed arena at once, all opens succeed, and nothing committed through any of them is ever lost because of another one's initialisation, even if one dies part-way through opening.",
  ["schedules", "crash_points"], "all interleavings of 2-3 openers that each commit a frame, up to a preemption bound, with at most one dying at any point of its open",
  "Tests open arenas sequentially.",
  [TR], [("initialised flag tested and set under the mutex", TR + ":a0_transport_init")],
  ["a0_transport_init", "a0_transport_commit"])
p("T10", "Read-only and exclusive handles see committed data only and obey their mode",
  "A read-only handle never modifies the arena and refuses to allocate; an exclusive handle works even if the previous owner died holding the lock. Both present exactly the committed frames even when an earlier writer left an unfinished allocation behind, and an allocation not committed through an exclusive handle is gone after its unlock. Waiting through either is refused rather than blocking forever.",
  ["histories", "crash_points", "configurations"], "all crash snapshots of a writer opened in each mode; all operation sequences to a depth through each mode",
  "Tests open read-only and exclusive handles only on quiescent arenas.",
  [TR], [("mode checks; lock is a no-op for non-shared modes", TR + ":a0_transport_lock")],
  ["a0_transport_init", "a0_transport_alloc", "a0_transport_wait", "a0_transport_frame"])
p("T11", "A version 0.2 arena is upgraded with its frames and sequence numbers intact",
  "Opening an arena written by format 0.2 presents exactly the frames and sequence numbers it held, in order, and the transport then behaves like any other: new frames continue the sequence and old ones are evicted oldest first.",
  ["inputs", "histories"], "every layout reachable for an alphabet of sizes rewritten as 0.2 header (both committed pages, large sequence numbers), followed by every operation sequence to a depth",
  "Tests open one recorded 0.2 file.",
  [TR], [("header rewrite on open", TR + ":a0_backward_compatiblility_update_from_0_2")],
  ["a0_transport_init"])

# ---------------------------------------------------------------- mutex
MX = "src/mtx.c"
p("M01", "At most one live user holds a mutex, and every release lets a waiter in",
  "Whatever the interleaving of lock, timed lock, try-lock and unlock by users in one or several processes, at most one live user holds the mutex at any time. A user blocked in lock always gets the mutex eventually once the holder releases it or dies; none is forgotten.",
  ["schedules", "crash_points"], "all interleavings of 2-3 users over all operation pairs up to a preemption bound, with deaths at every point and deadline expiry at every point",
  "Tests hammer a counter from several threads with free scheduling and a few staged cases.",
  [MX, "src/ftx.h", "src/robust.c"], [("priority-inheritance futex, uncontended compare-and-swap", MX)],
  ["a0_mtx_lock", "a0_mtx_timedlock", "a0_mtx_trylock", "a0_mtx_unlock"])
p("M02", "The death of a mutex holder is always reported and recovered",
  "If a user dies at any point while holding one or more mutexes, or while acquiring or releasing one, every such mutex becomes available to the others; the next acquirer of a mutex that was held at death is told the previous owner died and holds the mutex normally. A mutex not held at death never reports a dead owner.",
  ["crash_points", "schedules"], "every crash point of lock/trylock/timedlock/unlock/wait sequences over up to three mutexes, in every acquisition and release order, with 1-2 surviving users",
  "Tests kill a child at one fixed point, after the lock call has returned.",
  [MX, "src/robust.c"], [("per-thread robust list with pending entry", "src/robust.c")],
  ["a0_mtx_lock", "a0_mtx_trylock", "a0_mtx_lock_successful", "a0_mtx_previous_owner_died"])
p("M03", "Mutex calls report exactly the condition they met",
  "Try-lock by a user that does not hold the mutex reports busy if and only if another live user holds it; locking again by the holder reports deadlock instead of blocking; unlocking by a non-holder is refused and changes nothing; a timed lock reports timeout only when its deadline has passed while another user held it. A failed call leaves the caller not holding the mutex.",
  ["schedules", "histories"], "all operation sequences of up to three users to a depth, and all interleavings to a preemption bound",
  "Tests check each error once in a fixed staging.",
  [MX], [("error mapping around the futex calls", MX)], ["a0_mtx_lock", "a0_mtx_timedlock", "a0_mtx_trylock", "a0_mtx_unlock"])
p("M04", "Condition variables lose no wake-up and return with the mutex held",
  "A signal wakes at least one current waiter and a broadcast wakes every current waiter, whatever the interleaving, even if a woken user dies before it acts. A wait always returns with the mutex held by the caller, returns a timeout only after its deadline, and never lets two users hold the mutex.",
  ["schedules", "crash_points"], "all interleavings of 1-3 waiters with signallers and broadcasters up to a preemption bound, deadline expiry and death at every point",
  "Tests park waiters with sleeps before signalling.",
  [MX], [("counter snapshot and requeue onto the mutex", MX + ":a0_cnd_timedwait")], ["a0_cnd_wait", "a0_cnd_timedwait", "a0_cnd_signal", "a0_cnd_broadcast"])
p("M05", "Events and latches release every waiter exactly when they should",
  "Waiting on an event returns if and only if it has been set (or is set later), and once set it stays set for every waiter; a latch releases its waiters if and only if its count has been brought to zero by count-downs and arrivals. A timed wait times out only if its deadline passed first.",
  ["schedules"], "all interleavings of 1-3 waiters/arrivers with setters/counters up to a preemption bound, deadline expiry at every point",
  "Tests use one or two staged threads.",
  ["src/event.c", "src/latch.c"], [("mutex and condition variable", "src/event.c, src/latch.c")], ["a0_event_set", "a0_event_wait", "a0_event_timedwait", "a0_event_is_set", "a0_latch_wait", "a0_latch_count_down", "a0_latch_arrive_and_wait", "a0_latch_try_wait"])
# ---------------------------------------------------------------- deadman
DM = "src/deadman_mtx.c"
p("D01", "A deadman switch has one live holder and a new token for every taking",
  "At most one live user holds a deadman switch; lock, timed lock and try-lock succeed only when it is free or its holder died (which the new holder is told), and each successful taking gets a different token. Re-taking by the holder never blocks and changes nothing, releasing by a non-holder is refused and changes nothing, and the queried state matches who holds it.",
  ["schedules", "crash_points", "histories"], "all interleavings of 2-3 users up to a preemption bound with one death; all operation sequences of two handles to a depth",
  "Tests stage one process dying at one point.",
  [DM, "src/deadman.c"], [("robust futex word with token counter", DM)], ["a0_deadman_mtx_lock", "a0_deadman_mtx_timedlock", "a0_deadman_mtx_trylock", "a0_deadman_mtx_unlock", "a0_deadman_mtx_state"])
p("D02", "Deadman observers are told of every taking, release and death",
  "An observer waiting for a deadman switch to be taken returns once it is held, with the token of a taking; an observer waiting for a given taking to end returns once that holder released it or died, and not before. No interleaving leaves an observer or a would-be holder asleep when what it waits for has happened, however many there are.",
  ["schedules", "crash_points"], "all interleavings of a holder (release or death at any point) with 1-2 observers and a second holder up to a preemption bound, deadline expiry at any point",
  "Tests use one observer parked by a sleep.",
  [DM], [("wake-up of all waiters on every state change", DM)], ["a0_deadman_mtx_wait_locked", "a0_deadman_mtx_timedwait_locked", "a0_deadman_mtx_wait_unlocked", "a0_deadman_mtx_timedwait_unlocked"])
p("D03", "Shutting down a deadman handle ends all its waits and keeps others going",
  "After shutdown of a handle is requested, a lock or wait blocked on that handle returns the shutdown error (or success if it was satisfied first), later takings through it are refused, and the shutdown call returns once the blocked call has left. Users of other handles are unaffected, and closing a deadman releases the switch if it was held through it.",
  ["schedules"], "all interleavings of shutdown with blocked and just-blocking operations on the same handle and with a second handle",
  "Tests shut down after a sleep with one parked waiter.",
  [DM], [("shutdown flag and operation counter", DM + ":a0_deadman_mtx_shutdown")], ["a0_deadman_mtx_shutdown"])
# ---------------------------------------------------------------- readers
RD = "src/reader.c"
p("R01", "A polling reader returns the right packets once each, in order",
  "For every start option and iteration option, a polling reader returns exactly the packets its options promise: oldest, newest-at-start or only new packets first, then either each next packet in order or the newest unseen one. It never returns a packet twice, never returns one out of order, skips only packets that were evicted, and reports 'nothing available' exactly when its options leave nothing to return.",
  ["histories", "configurations"], "all interleavings of writes (with and without eviction) and reads to a depth, for all start/iteration options, reader created at any position",
  "Tests follow one script per option without eviction.",
  [RD], [("reader position over the transport", RD + ":a0_reader_sync_zc_*")], ["a0_reader_sync_init", "a0_reader_sync_can_read", "a0_reader_sync_read"])
p("R02", "A callback reader delivers each due packet exactly once, in order",
  "Whatever the interleaving of the reader's thread with writers, and wherever the writes fall relative to the reader's start, each packet its options make due is delivered to the callback exactly once, in order and with intact content, as long as it was not evicted before its turn. Nothing is delivered that the options exclude.",
  ["schedules", "configurations"], "all interleavings of 1-2 writers with the reader thread up to a preemption bound, for all start/iteration options, empty and non-empty start",
  "Tests write after the reader is surely parked or before it is created.",
  [RD], [("reader thread loop over wait/step", RD + ":a0_reader_zc_thread_main")], ["a0_reader_init", "a0_reader_zc_init"])
p("R03", "Closing a reader always finishes and no callback runs afterwards",
  "Closing a callback reader returns in every interleaving with writers and with its own thread's progress, no callback is running or starts after it returned, and other users of the topic are unaffected. Closing a polling or blocking reader likewise never blocks forever.",
  ["schedules"], "all interleavings of close with thread start, waiting, delivery and a concurrent writer up to a preemption bound",
  "Tests close readers that are quietly parked.",
  [RD], [("start event, shutdown flag, thread join", RD + ":a0_reader_zc_close")], ["a0_reader_close", "a0_reader_zc_close"])
p("R04", "Blocking, timed and random-access reads return the right packet or error",
  "A blocking read returns the next due packet as soon as there is one in every interleaving, a timed one reports timeout only after its deadline, and a random-access read returns the packet at the given offset or a range error. Reads never disturb what the following reads return.",
  ["schedules", "histories"], "all interleavings of a writer with a blocking reader, expiry of the deadline at any point; all offsets of every layout to a depth",
  "Tests use real sleeps and two or three offsets.",
  [RD], [("wait on the transport with a predicate", RD)], ["a0_reader_sync_read_blocking", "a0_reader_sync_read_blocking_timeout", "a0_reader_random_access_read"])
# ---------------------------------------------------------------- packets
PK = "src/packet.c"
p("P01", "Packets survive serialisation, copying and the C/C++ boundary unchanged",
  "Serialising and deserialising any packet, or deep-copying it, yields a packet with the same id, the same header pairs and the same payload bytes, and the computed size and header statistics match exactly what is written. A failing allocation is reported as an error without touching memory it does not own.",
  ["inputs", "fault_sequences"], "all packets up to a bound on number of headers, key/value length, duplicate and empty keys, payload sizes, and nested header blocks in every split; failure of each allocation",
  "Tests round-trip one or two packets.",
  [PK, "src/packet.cpp"], [("offset table layout", PK + ":a0_packet_serialize")], ["a0_packet_stats", "a0_packet_serialize", "a0_packet_deserialize", "a0_packet_deep_copy", "a0::Packet"])
p("P02", "Header iteration and lookup are exact across linked header blocks",
  "Iterating the headers of a packet visits every pair of every linked header block exactly once, in order; lookup by key yields exactly the pairs with that key in iteration order and reports the end after the last one.",
  ["inputs"], "all chains of up to three header blocks with up to three headers each over a two-key alphabet, empty blocks in every position",
  "Tests iterate one chain without empty blocks.",
  [PK], [("header iterator over linked blocks", PK + ":a0_packet_header_iterator_next")], ["a0_packet_header_iterator_init", "a0_packet_header_iterator_next", "a0_packet_header_iterator_next_match"])
p("P03", "Generated ids are well formed and never repeat across threads or forks",
  "Every generated id is a canonical version-4 UUID string, and no two ids generated by the threads of a process, by a parent and its forked children, or by siblings are ever equal.",
  ["histories", "schedules"], "all short sequences of generate/fork/new-thread in every order to a depth, and all interleavings of generating threads",
  "Tests generate ids in one thread of one process.",
  ["src/uuid.c", "src/rand.c"], [("per-thread generator state seeded from the system", "src/rand.c")], ["a0_uuidv4", "a0_packet_init"])
# ---------------------------------------------------------------- writers
WR = "src/writer.c"
p("W01", "Writer middleware runs once each, in order, with the promised lock scope",
  "For every way of pushing, wrapping and composing middleware, each piece runs exactly once per written packet, in the documented order, and the packet reaching the topic carries the effect of all of them. Work promised to run under the topic lock runs with the lock held, and a write returns with the lock released in every case.",
  ["programs", "configurations"], "all chains up to length four built by every mix of push, wrap and compose, with header-adding, content-changing, dropping and failing pieces",
  "Tests build two or three chains.",
  [WR, "src/middleware.c"], [("processing chain", WR)], ["a0_writer_push", "a0_writer_wrap", "a0_compose", "a0_writer_write"])
p("W02", "Standard headers are present, unique and monotone across concurrent writers",
  "Packets written with the standard middleware carry exactly one each of the time, writer id, writer sequence and transport sequence headers; the transport sequence counts committed packets without gap or repeat in topic order whatever the interleaving of writers, the writer sequence counts each writer's packets, and monotonic time never decreases along the topic.",
  ["schedules", "histories"], "all interleavings of 2 writers with 1-2 packets each up to a preemption bound; all write sequences of 1-2 writers to a depth",
  "Tests check presence of the headers on sequentially written packets.",
  ["src/middleware.c", WR], [("sequence and monotonic time taken under the topic lock", "src/middleware.c")], ["a0_add_standard_headers", "a0_add_transport_seq_header", "a0_add_writer_seq_header", "a0_add_time_mono_header"])
p("W03", "Write-if-empty writes exactly one packet whatever the race",
  "Of any number of concurrent write-if-empty calls on an empty topic exactly one packet is written and exactly that caller is told it wrote; on a topic with live packets none is written. A topic emptied again accepts one again.",
  ["schedules", "crash_points"], "all interleavings of 2-3 callers up to a preemption bound, at most one dying at any point",
  "Tests call it sequentially.",
  ["src/middleware.c"], [("emptiness test under the topic lock", "src/middleware.c:a0_write_if_empty")], ["a0_write_if_empty", "a0_cfg_write_if_empty"])
p("W04", "Concurrent merge-patch updates are never lost",
  "When several writers merge-patch a topic that holds a value concurrently, the final value is the result of applying all patches in the order of their packets, and every intermediate packet is the merge of its predecessor with its own patch; a malformed patch or a writer dying leaves the previous value in place.",
  ["schedules", "crash_points"], "all interleavings of 2-3 patchers up to a preemption bound, at most one dying at any point",
  "Tests patch sequentially.",
  ["src/middleware.c", "src/cfg.c"], [("read-merge-write under the topic lock", "src/middleware.c:a0_json_mergepatch")], ["a0_json_mergepatch", "a0_cfg_mergepatch"])
p("W05", "A failed write leaves the topic as it was and usable",
  "When a write cannot be done (packet too large for the topic, failing middleware, read-only topic), the caller gets an error, nothing is added to or removed from the topic, the lock is released, and the next proper write succeeds.",
  ["inputs", "fault_sequences", "histories"], "all packet sizes in an alphabet around the capacity at every fill level, failing middleware at each position of the chain, read-only topics",
  "Tests never write a packet that does not fit.",
  [WR, PK], [("error propagation in the write path", WR)], ["a0_writer_write", "a0_publisher_pub", "a0_cfg_write", "a0_logger_log"])
# ---------------------------------------------------------------- pubsub/log/cfg
p("B01", "Every subscriber kind sees exactly the published packets in order",
  "For any number of publishers and subscribers on a topic, polling, blocking and callback subscribers each see the published packets their options promise, in one common order, each once, with content and headers intact; topics do not interfere.",
  ["schedules", "histories"], "all interleavings of 1-2 publishers with a subscriber up to a preemption bound; all publish/read/open/close sequences to a depth for all option pairs",
  "Tests publish two packets to a quiet subscriber.",
  ["src/pubsub.c", "src/pubsub.cpp"], [("reader and writer over the topic file", "src/pubsub.c")], ["a0_publisher_pub", "a0_subscriber_sync_read", "a0_subscriber_init"])
p("B02", "A log listener gets exactly the messages at or above its level",
  "A log listener with a threshold level receives exactly the messages whose level is at least that severe, in order, with level header and payload intact, including when unlabelled or unknown-level packets are on the topic.",
  ["inputs", "histories", "configurations"], "all sequences of messages over all levels to a depth, for every threshold and start/iteration option",
  "Tests log one message per level with one or two thresholds.",
  ["src/log.c"], [("level header and filter", "src/log.c")], ["a0_logger_log", "a0_log_listener_init"])
p("B03", "Configuration reads return the latest value and watchers converge to it",
  "A configuration read returns the most recently written value or reports that there is none; a watcher is called with the value present at its start and, after any sequence of writes, with the last value, never with one older than a value it already got.",
  ["schedules", "histories"], "all interleavings of 1-2 writers with a watcher and a reader up to a preemption bound; all write/read sequences to a depth including eviction",
  "Tests write with the watcher parked.",
  ["src/cfg.c", "src/cfg.cpp"], [("newest-first reader", "src/cfg.c")], ["a0_cfg_write", "a0_cfg_read", "a0_cfg_read_blocking", "a0_cfg_watcher_init"])
# ---------------------------------------------------------------- rpc
p("Q01", "Each RPC request is served once and its reply reaches its caller once",
  "Every request sent while a server is running is handed to the server exactly once and the reply the server gives reaches the callback or blocking call of exactly that request, once, whatever the interleaving and however many clients and servers share the topic. Timed blocking calls fail with timeout only after their deadline, and leave nothing behind that could be called later.",
  ["schedules", "histories"], "all interleavings of 1-2 clients and a server up to a preemption bound; all request/reply/cancel orders of 2-3 outstanding requests",
  "Tests send requests one after the other to an idle server.",
  ["src/rpc.c", "src/rpc.cpp"], [("request id map, response filter", "src/rpc.c")], ["a0_rpc_client_send", "a0_rpc_client_send_blocking", "a0_rpc_server_reply", "a0_rpc_server_init"])
p("Q02", "RPC cancel and close are orderly",
  "A cancelled request's callback is not called for a reply that arrives after the cancel, the server's cancel callback gets exactly the cancelled id, a blocked call on it returns the cancelled error, and other requests are unaffected. Closing a client or server returns in every interleaving, and no callback runs afterwards.",
  ["schedules", "histories"], "all orders of send/reply/cancel/close on two requests; interleavings up to a preemption bound",
  "Tests cancel one request in a fixed order.",
  ["src/rpc.c"], [("outstanding map protected by a mutex", "src/rpc.c")], ["a0_rpc_client_cancel", "a0_rpc_client_close", "a0_rpc_server_close"])
p("Q03", "Progress RPC delivers every progress in order and one completion",
  "For every connection, the client's callback gets the server's progress packets exactly once each, in order, marked incomplete, then the final one marked complete, and nothing after completion or that was sent after a cancellation; connections never receive each other's packets, and a connection without callback is harmless. The server is told of every connection once and of its cancellation.",
  ["schedules", "histories"], "all orders of connect/progress/complete/cancel on two connections from one or two clients to a depth; interleavings up to a preemption bound",
  "Tests run one connection with a fixed script.",
  ["src/prpc.c", "src/prpc.cpp"], [("connection id map", "src/prpc.c")], ["a0_prpc_client_connect", "a0_prpc_client_cancel", "a0_prpc_server_send"])
# ---------------------------------------------------------------- file
p("F01", "Concurrent opens of a missing file all get the same, fully sized file",
  "When several processes open the same missing topic file at once, all succeed and share one file that has its full size and permissions from the first moment it is visible; nothing one of them wrote is ever lost, even if one dies part-way.",
  ["schedules", "crash_points"], "all interleavings of 2-3 openers at the granularity of system calls, with one dying before any of its calls; a concurrent remove",
  "Tests open files from one process at a time.",
  ["src/file.c"], [("create temporary file, size it, link into place", "src/file.c")], ["a0_file_open", "a0_file_close"])
p("F02", "A failing system call while opening or closing leaks and corrupts nothing",
  "If any system call made while opening, creating, or closing a file fails, the call either succeeds all the same or returns that error, and leaves no temporary file, descriptor or mapping behind (unless the failing call is the one that cleans up), nor a half-made file under the requested name. A later attempt succeeds.",
  ["fault_sequences"], "failure of every single system call (and pairs) in open of missing/existing files, with each plausible errno, for all modes and nested directories",
  "Tests provoke two or three errors through bad paths.",
  ["src/file.c"], [("error paths of open", "src/file.c")], ["a0_file_open", "a0_file_close"])
p("F03", "Topic names map to one path each, inside the root, and bad names are refused",
  "For every topic name and template (without empty, '.' or '..' parts), the file used is the template with its placeholder replaced by the name, joined with the root directory unless the template is absolute; distinct names give distinct files for one kind of topic and different kinds never share a file. Empty, absolute and missing names or templates without the placeholder are refused, and environment settings are honoured with documented defaults.",
  ["inputs", "configurations"], "all names over a small alphabet to a length, a set of templates, and every combination of environment settings",
  "Tests try a handful of names.",
  ["src/topic.c", "src/env.c", "src/file.c"], [("template substitution and absolute path construction", "src/topic.c")], ["a0_topic_open", "a0_env_root", "a0_env_topic_tmpl_pubsub", "a0_file_open"])
p("F04", "Directory listing is exact and removal stays inside its target",
  "Iterating a directory yields each entry exactly once with its right kind, name and path and then reports the end; removing one file or a whole tree deletes exactly the named file or tree, never follows a symbolic link inside it out of it, and reports an error if anything could not be removed. Relative names mean the same place for opening, listing and removing; an entry whose path exceeds the system's limit gives an error.",
  ["inputs", "histories"], "all directory trees up to a small shape bound with files, empty and nested directories, and symbolic links, via absolute and relative names",
  "Tests list and remove one tree.",
  ["src/file.c"], [("directory iterator, recursive removal", "src/file.c")], ["a0_file_iter_init", "a0_file_iter_next", "a0_file_remove", "a0_file_remove_all"])
# ---------------------------------------------------------------- glob/discovery
p("G01", "Path patterns match exactly the paths they describe",
  "A pattern matches an absolute path if and only if, segment by segment, '*' stands for any run of characters inside one segment and a '**' directory stands for any number of directories, everything else literally. No pattern or path, however deep or long, makes matching read or write outside its inputs; one with more parts than the documented maximum depth is refused with an error.",
  ["inputs"], "all pattern/path pairs over a small alphabet up to a length bound, compared with a recursive definition; depths around the supported maximum",
  "Tests try a list of examples.",
  ["src/pathglob.c"], [("segment split and backtracking match", "src/pathglob.c")], ["a0_pathglob_init", "a0_pathglob_match"])
p("G02", "Discovery announces every matching file once, whenever it appears",
  "A discovery watcher announces every regular file whose path matches its pattern exactly once, whether it existed before, is created or moved into place later, or appears with its directories while the watcher is starting or scanning, including in a directory below the pattern's fixed part that was removed and made again; it never announces anything that does not match. Closing it always returns and no announcement follows.",
  ["schedules", "histories"], "every placement of each step of a creation script (mkdir, create, remove, re-create) among the watcher's system calls, for several patterns",
  "Tests create files before start or after a sleep.",
  ["src/discovery.c"], [("watch first, then list; announced set", "src/discovery.c")], ["a0_discovery_init", "a0_discovery_close"])
# ---------------------------------------------------------------- time / map
p("S01", "Time strings round-trip and order like the times they encode",
  "Every monotonic or wall-clock time in the supported range converts to a string of the documented fixed form and parses back to the same value, and strings compare as the times do. Malformed strings are refused without reading or writing out of bounds.",
  ["inputs"], "all boundary values of every field and their neighbours; all single-character corruptions and truncations of valid strings",
  "Tests convert the current time.",
  ["src/time.c", "src/strconv.c"], [("fixed-width conversion", "src/time.c")], ["a0_time_mono_str", "a0_time_mono_parse", "a0_time_wall_str", "a0_time_wall_parse"])
p("S02", "Adding a duration to a time is exact and comparisons are consistent",
  "Adding any signed nanosecond duration to a time gives the exact sum with a normalised nanosecond part, and comparing times agrees with comparing their total nanoseconds.",
  ["inputs"], "all combinations of boundary seconds, nanoseconds and durations and their neighbours",
  "Tests add one positive and one negative duration.",
  ["src/time.c", "src/time.cpp", "src/clock.h"], [("carry and borrow of nanoseconds", "src/clock.h")], ["a0_time_mono_add", "a0_time_wall_add", "a0_time_mono_less", "a0::TimeMono"])
p("H01", "The map behaves as a dictionary under every sequence of operations",
  "After any sequence of insert, overwrite, delete, lookup and iteration, for any distribution of hash values including total collision and wrap-around, the map holds exactly the latest value of every key not deleted since, its size is right, and iteration visits each entry once. Comparison helpers are total orders consistent with equality.",
  ["histories", "inputs"], "all operation sequences to a depth over a small key alphabet with every assignment of colliding hashes; all reachable table layouts",
  "Tests insert a range of integers with a well-spread hash.",
  ["src/map.c", "src/cmp.c"], [("robin-hood probing with backward-shift deletion and growth", "src/map.c")], ["a0_map_put", "a0_map_get", "a0_map_del", "a0_map_pop", "a0_map_has", "a0_map_iterator_next", "a0_map_size"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
print(len(P), "properties")
