"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, pathlib
S = "src/frequenz/channels/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
            "mechanism": [{"name": n, "where": S + w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": None,
        }})

p("C01", "Anycast delivers every accepted message to exactly one receiver, once",
  "Every message whose send() on an Anycast channel returned normally is received by exactly one of the channel's receivers, exactly once and unchanged, whatever its value (None, falsy objects and objects with unusual comparison included), and nothing else is ever received. A send() that raised or was cancelled delivers nothing. Cancelling or timing out receive() or ready(), or leaving a select() loop, neither loses nor duplicates a message.",
  ["schedules", "inputs", "histories"],
  "all interleavings of any number of senders and receivers (each receiver used by plain receive, async for, ready/consume, map or select), any limit >= 1, any message values, any cancellation points; at the end the receivers are drained",
  "One test with 5x5 tasks compares sums (a loss and a duplicate can cancel out) under one schedule; none cancels a waiter, uses several blocked senders, or leaves a select loop.",
  ["_anycast.py", "_receiver.py"],
  [("send appends after re-checking for room in a while loop", "_anycast.py:_Sender.send"), ("ready() moves one message to the receiver, consume() hands it out", "_anycast.py:_Receiver.ready/consume")],
  [("_deque", "the shared buffer", "_anycast.py:Anycast"), ("_next", "the message a ready receiver holds", "_anycast.py:_Receiver")],
  ["Sender.send call/return", "Receiver.receive/ready/consume call/return"])
p("C02", "Anycast is a FIFO queue",
  "Messages leave an Anycast channel in the order in which they were accepted: if send(a) returned before send(b) was called, then b is never handed out before a has been claimed by a receiver. In particular messages of one sender reach a single receiver in the order they were sent, also when the sender had to wait for room or several senders and receivers are blocked.",
  ["schedules", "histories"],
  "all interleavings of senders and receivers, any limit, with blocked senders and receivers and cancellations",
  "The only ordering test uses one sender and one receiver that never block; order under contention is not looked at.",
  ["_anycast.py"],
  [("append right, popleft", "_anycast.py:_Sender.send/_Receiver.ready")], [("_deque", "the shared buffer", "_anycast.py:Anycast")],
  ["send/receive intervals at the client boundary"])
p("C03", "Anycast back-pressure: bounded buffer, and no waiter is forgotten",
  "An Anycast channel never holds more than limit accepted but unclaimed messages; send() waits exactly while the buffer is full, and receive() waits exactly while there is nothing to receive. Whenever the program comes to rest on an open channel, no sender is still waiting while there is room and no receiver is still waiting while a message is available, even if other waiters were cancelled or timed out at the very moment they were being woken. Nothing is ever dropped to make room.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings and cancellation points, any limit >= 1 (default 10), any number of blocked senders/receivers; 'comes to rest' = the event loop has nothing left to run",
  "One test fills a channel with a single sender; lost wake-ups need two waiters and a cancellation in one particular loop iteration.",
  ["_anycast.py"],
  [("_send_cv/_recv_cv conditions with notify(1)", "_anycast.py:_Sender.send/_Receiver.ready")],
  [("_deque.maxlen", "the limit", "_anycast.py:Anycast")],
  ["blocked tasks and buffer content at quiescence"])
p("C04", "Closing an Anycast channel refuses sends, drains, then stops everyone",
  "After Anycast.close(), every send() that has not returned yet, including ones already waiting for room, raises SenderError (sender = the sender used, cause ChannelClosedError naming the channel) and its message is never delivered. Receivers still get every message accepted before the close, then every waiting or later receive() raises ReceiverStoppedError (receiver = the one used, cause ChannelClosedError naming the channel) and async iteration ends; no one stays blocked, a receiver never produces again after it reported being stopped, and closing twice is harmless.",
  ["schedules", "histories"],
  "close() at any point of any interleaving of senders and receivers, with empty, partly filled and full buffers, blocked senders or blocked receivers",
  "Tests close an idle channel; none closes with a sender blocked on a full buffer or with several blocked receivers.",
  ["_anycast.py"],
  [("_closed checked in send/ready/consume; close notifies both conditions", "_anycast.py")], [("_closed", "closed flag", "_anycast.py:Anycast")],
  ["send/receive outcomes after close", "is_closed"])
p("C05", "Broadcast delivers every message to every receiver in one common order",
  "Every receiver of a Broadcast channel receives, exactly once, unchanged and in the order in which they were sent, all messages sent after the receiver was created, except those dropped because its own buffer overflowed. This holds for any number of senders and receivers, for any message values, and independently of what the other receivers do (consume, wait, cancel, get created or get deleted).",
  ["schedules", "inputs", "histories"],
  "all interleavings of sends, receives, receiver creation and deletion, cancellations; any limits and message values",
  "Tests compare sums or use a single sender and receiver; creation, deletion and cancellation in the middle of traffic are not exercised.",
  ["_broadcast.py"],
  [("send enqueues into each live receiver's own queue, purging dead weak references", "_broadcast.py:_Sender.send")],
  [("_receivers", "weak references to the receivers", "_broadcast.py:Broadcast"), ("_q", "a receiver's buffer", "_broadcast.py:_Receiver")],
  ["send/receive at the client boundary against one model queue per receiver"])
p("C06", "Broadcast overflow drops only the oldest message of the slow receiver",
  "A Broadcast receiver holds at most limit messages (default 50) and its length is the number of messages it would still deliver; when a message arrives at a full receiver exactly the oldest one is dropped, for that receiver only, and a warning is logged through the standard logging hierarchy (logger names starting with frequenz.channels). send() on an open Broadcast channel never waits for anything and never fails because of slow, idle or deleted receivers.",
  ["inputs", "histories", "schedules"],
  "any mix of limits >= 1, any sequence of sends, receives, ready() without consume(), receiver deletions",
  "One test checks sums for two limits and one pattern; the warning, the length and other receivers' independence are not checked.",
  ["_broadcast.py"],
  [("_Receiver.enqueue pops the oldest when full and warns", "_broadcast.py:_Receiver.enqueue")], [("_q.maxlen", "receiver limit", "_broadcast.py:_Receiver")],
  ["len(receiver)", "log records", "whether send() suspends"])
p("C07", "Broadcast resend_latest gives new receivers exactly the latest message",
  "With resend_latest enabled at that moment, a new receiver of an open Broadcast channel starts with exactly one message, the latest one sent (whatever its value, None included), followed by everything sent later; if nothing was sent yet, if resend_latest is disabled, or if the channel is closed, it starts empty. Existing receivers are not affected by the creation of new ones.",
  ["histories", "inputs"],
  "any history of sends, receiver creations, toggles of resend_latest and close(); any message values",
  "Two tests with integers only and one creation point each.",
  ["_broadcast.py"],
  [("_latest remembered by send, enqueued by new_receiver, cleared by close", "_broadcast.py:Broadcast.new_receiver")], [("_latest", "latest message", "_broadcast.py:Broadcast")],
  ["first messages of every new receiver"])
p("C08", "Closing a Broadcast channel and deleting its receivers",
  "After Broadcast.close() every send() raises SenderError (sender = the sender used, cause ChannelClosedError naming the channel) and reaches nobody; each receiver still delivers what it had buffered, then every waiting or later receive() raises ReceiverStoppedError (receiver = the one used, cause ChannelClosedError naming the channel), async iteration ends, for good, and nobody stays blocked. A receiver the program no longer references is released together with its buffered messages and does not disturb the channel or the other receivers.",
  ["schedules", "histories"],
  "close() at any point of any interleaving, with waiting and with buffered receivers; receivers deleted at any point, including while others wait or before/after close",
  "Tests close an idle channel, and inspect one deletion through a private attribute.",
  ["_broadcast.py"],
  [("_closed flag and notify_all", "_broadcast.py:Broadcast.close"), ("weak references purged in send", "_broadcast.py:_Sender.send")], [("_closed", "closed flag", "_broadcast.py:Broadcast")],
  ["outcomes after close", "weak references to receivers and messages"])
p("C09", "Receiver protocol: ready() is a stable promise, consume() keeps it",
  "For every receiver of the library (Anycast, Broadcast, map(), merge(), Event, Timer, FileWatcher and nestings of them): ready() waits until there is a message, an error or a stop, never raises, consumes nothing, may be repeated, and once it has finished with True it finishes again immediately and consume() right after returns the next message (or raises the receiver's error) without waiting. It returns True while there is something to consume and False exactly when the receiver is stopped with nothing left, in which case consume() raises ReceiverStoppedError.",
  ["programs", "histories", "schedules"],
  "all receiver kinds and nestings up to depth 3, any sequence of ready/consume/receive/anext/cancelled ready against any schedule of messages, errors, stop and close",
  "The protocol is only exercised implicitly; no test repeats ready(), checks its result, or mixes the access styles, and composite receivers are barely covered.",
  ["_receiver.py", "_anycast.py", "_broadcast.py", "_merge.py", "event.py", "timer.py", "file_watcher.py"],
  [("ready()/consume() of each receiver", "_receiver.py:Receiver")], [],
  ["ready/consume results, and whether a repeated ready() suspends"])
p("C10", "A stopped receiver says so, identifies itself, and stays stopped",
  "Once a receiver of any kind has stopped and was drained, each receive() raises ReceiverStoppedError whose receiver attribute is the very object receive() was called on (also through map() and merge()), each async-for loop ends without an exception, ready() returns False at once, and this never changes again unless a Timer is reset(). Errors raised by the library are always frequenz.channels.Error subclasses of the documented kind, never internal ones such as AssertionError or IndexError, when the API is used as documented.",
  ["programs", "histories"],
  "all receiver kinds and nestings, stopped in any way (channel closed, Event/Timer/Merger stop(), all merged receivers stopped, watcher ended), used afterwards by any number of receive/anext/ready calls",
  "Tests check the error of plain channel receivers once each.",
  ["_receiver.py", "_exceptions.py", "_anycast.py", "_broadcast.py", "_merge.py", "event.py", "timer.py", "file_watcher.py"],
  [("__anext__/receive translation of ReceiverStoppedError", "_receiver.py:Receiver.receive")], [],
  ["exceptions raised, their attributes and causes"])
p("C11", "Cancelling or timing out a wait is harmless for every receiver",
  "For every receiver kind and nesting, cancelling a pending receive(), anext() or ready() at any moment (directly, by a timeout, or by leaving a select() loop) leaves the receiver working: no message that it would have delivered is lost, duplicated or reordered, and later receives behave as if the cancelled call had not been made. When two waits on the same receiver briefly overlap because the first one is still being cancelled, the second one gets the message as soon as there is one.",
  ["schedules", "fault_sequences", "programs"],
  "all receiver kinds and nestings up to depth 3; cancellation in any loop iteration relative to message arrival, once or repeatedly",
  "No test cancels a pending receive except one timeout on an idle Anycast receiver.",
  ["_anycast.py", "_broadcast.py", "_merge.py", "_receiver.py", "event.py", "timer.py", "file_watcher.py"],
  [("a message is taken only in ready()'s last step or in consume()", "_anycast.py:_Receiver.ready"), ("merged tasks survive a cancelled ready()", "_merge.py:Merger.ready")], [],
  ["outcome of cancelled and later receives"])
p("C12", "map() applies its function exactly once to each message, in order",
  "A mapped receiver delivers, in order, f(m) for every message m the underlying receiver delivers, calling f exactly once per consumed message, with that message, and never for messages that are not consumed; maps compose, and stopping passes through. If f raises, that receive() raises f's exception, only that one message is affected, and the receiver keeps working.",
  ["programs", "inputs", "histories"],
  "any underlying receiver, any composition of maps, any f including ones that raise, return None or return falsy values; plain, select and merge consumption",
  "Two tests map two integers each.",
  ["_receiver.py"],
  [("_Mapper.consume applies the function", "_receiver.py:_Mapper")], [], ["calls of f and values delivered"])
p("C13", "merge() delivers the union of its receivers, each in order, then stops",
  "A merged receiver delivers every message of every merged receiver exactly once, keeping the order of each receiver, and no message is held back while the consumer is waiting. It stops exactly when all merged receivers have stopped and everything was delivered; sources that stop earlier or that stay silent do not affect the others.",
  ["schedules", "histories", "programs"],
  "any number >= 1 of receivers of any kind (nested merges and maps included), any arrival and stop schedule, any consumption style (receive, async for, ready/consume, select), with cancellations",
  "One test merges two channels with one arrival pattern.",
  ["_merge.py"],
  [("one pending anext() task per receiver, finished ones moved to _results", "_merge.py:Merger.ready")], [("_pending", "tasks fetching from the receivers", "_merge.py:Merger"), ("_results", "fetched, undelivered results", "_merge.py:Merger")],
  ["sequence delivered by the merged receiver"])
p("C14", "merge(): no starvation, errors stay local, stop() ends it cleanly",
  "While several merged receivers have messages available, none is overtaken indefinitely: it is served after a bounded number (a small multiple of the number of receivers) of deliveries from the others. An error raised by one merged receiver (or its map function) is raised once by the merged receiver's receive() and neither loses messages of others nor stops anything. After stop() (also while another task is waiting, which then sees an ordinary stop, not a cancellation) at most already fetched messages are delivered, then the merged receiver is stopped and no background task is left; merge() without receivers raises ValueError, and an abandoned merged receiver leaves no task behind.",
  ["schedules", "fault_sequences", "histories"],
  "any number of always-ready receivers; errors from any receiver at any time; stop()/deletion at any point of any schedule",
  "Nothing of this is tested except the ValueError.",
  ["_merge.py"],
  [("FIRST_COMPLETED wait collecting all done tasks", "_merge.py:Merger.ready"), ("stop() cancels and awaits the tasks", "_merge.py:Merger.stop")], [("_pending", "background tasks", "_merge.py:Merger")],
  ["delivered sequence", "asyncio.all_tasks()"])
p("C15", "select() reports every message and every stop exactly once, from its source",
  "Iterating select() yields, for each receiver passed, each of its messages exactly once, in that receiver's order and attributed to exactly that receiver by selected_from(), as soon as the consumer is waiting and the message is there; a receiver that stops is reported exactly once with was_stopped (after all its messages) and then no more, while the others continue. The iteration ends exactly when all receivers have stopped, and a receiver that is always ready cannot starve the others indefinitely.",
  ["schedules", "histories", "programs"],
  "any number of distinct receivers of any kind (user-defined ones, also ones comparing equal, included), any arrival, error and stop schedule, handlers that take any time between iterations",
  "Tests use three Events and a handful of hand-made timelines.",
  ["_select.py"],
  [("one ready() task per receiver, re-created after each selection", "_select.py:select")], [("pending", "ready() tasks", "_select.py:select")],
  ["sequence of Selected objects", "ready/consume calls on user-defined receivers"])
p("C16", "Leaving select() in any way cleans up and loses nothing",
  "However a select() iteration ends (exhaustion, break, return, an exception in the body, aclose(), cancellation of the consuming task, UnhandledSelectedError, SelectError), shortly afterwards no task created by it is left. Messages that were not yielded stay available: receiving directly, or starting a new select() or merge() on the same receivers, right away or later, delivers every remaining message exactly once and in order, without getting stuck.",
  ["schedules", "fault_sequences", "histories"],
  "any way and any moment of leaving, any receivers, messages arriving before, during and after the clean-up; immediate or delayed re-use of the receivers",
  "One test counts tasks after one break; messages arriving during the clean-up are never tested.",
  ["_select.py", "_anycast.py", "_merge.py"],
  [("finally: _stop_pending_tasks", "_select.py:select")], [("pending", "ready() tasks", "_select.py:select")],
  ["asyncio.all_tasks()", "messages received after leaving"])
p("C17", "select() surfaces mistakes and errors instead of hiding them",
  "If an iteration's body never calls selected_from() with the selected receiver, the next step raises UnhandledSelectedError carrying that Selected; if it does, no such error is raised. An exception raised by a receiver when consuming is stored in exactly that Selected (exception; raised by message; was_stopped only for ReceiverStoppedError) and the loop continues with all receivers; an exception raised by a receiver's ready() ends the loop with SelectError caused by it. On every receiver select() consumes exactly once after each finished ready(), never before, and never runs two ready() calls at once.",
  ["programs", "fault_sequences", "schedules"],
  "user-defined receivers scripting any mix of messages, errors in consume(), errors in ready() and stops; bodies that handle or forget any subset of receivers",
  "Tests cover Selected with mocks and one forgotten receiver; errors in ready() are not tested at all.",
  ["_select.py"],
  [("Selected consumes once and stores the exception", "_select.py:Selected"), ("_handled flag", "_select.py:selected_from")], [("_handled", "whether the body recognised the receiver", "_select.py:Selected")],
  ["Selected objects and exceptions of the iteration"])
p("C18", "Event: sets are remembered, coalesce until consumed, and stop() is final",
  "An Event that was set() is ready until consumed: however many set() calls came since the last consumption, exactly one receive() completes, also if set() came before the wait or the wait was cancelled, and later receives wait for a new set(). stop() wakes every waiter; an event set before the stop is still delivered once (ready() is True for it), then the Event is stopped for good. is_set and is_stopped always tell the truth.",
  ["histories", "schedules"],
  "any sequence of set, stop, ready, consume, receive and cancellations from any number of setters and one consumer, directly or in select()/merge(); set() after stop() excluded",
  "One linear test.",
  ["event.py"],
  [("_is_set flag plus an asyncio.Event", "event.py:Event.ready/consume")], [("_is_set", "pending event", "event.py:Event"), ("_is_stopped", "stopped", "event.py:Event")],
  ["results of ready/consume/receive, is_set, is_stopped"])
p("C19", "Timer ticks are never early, not late without cause, and report their drift",
  "No tick of a Timer is delivered before its scheduled time; a consumer that is waiting gets it as soon as the event loop runs at or after the scheduled time. The delivered timedelta is exactly (to the microsecond) the time at which the tick triggered minus the time it was scheduled for, hence never negative, for every interval >= 1 microsecond, start_delay and loop clock value.",
  ["inputs", "schedules", "configurations"],
  "any interval, start_delay, clock origin, consumer think time and event loop stalls (virtual time), any policy, direct, ready/consume, select and merge consumption",
  "Tests use 1 s intervals at clock origin 0 and a handful of delays, compared approximately.",
  ["timer.py"],
  [("integer microsecond arithmetic; sleep loop re-checking the clock", "timer.py:Timer.ready")], [("_next_tick_time", "scheduled time of the next tick", "timer.py:Timer"), ("_current_drift", "drift of the pending tick", "timer.py:Timer")],
  ["loop time at delivery, delivered drift"])
p("C20", "Missed-tick policies schedule exactly the documented ticks",
  "After a tick scheduled at s and triggered at time n, the next tick is scheduled at s + interval with TriggerAllMissed (so every tick is delivered, late ones in a burst), at the first multiple of interval after s that is later than n with SkipMissedAndResync, and with SkipMissedAndDrift at n + interval if n - s exceeds delay_tolerance, else at s + interval. This holds over any sequence of delays without accumulating error, user-defined policies are obeyed with exactly the true interval, scheduled time and current time, and a negative delay_tolerance is rejected.",
  ["inputs", "histories"],
  "any interval, tolerance (0, equal to a delay, larger than the interval), any sequence of on-time, slightly and hugely late consumptions, any policy including custom ones",
  "The policy functions are tested on single calls; timers run through one fixed sequence per policy.",
  ["timer.py"],
  [("calculate_next_tick_time of each policy", "timer.py"), ("ready() passes now, scheduled time, interval", "timer.py:Timer.ready")], [("_next_tick_time", "scheduled time of the next tick", "timer.py:Timer")],
  ["sequence of delivery times and drifts against a model"])
p("C21", "Timer start, reset and stop take effect as documented at any moment",
  "A Timer starts when created (auto_start) or at the first reset()/ready()/receive(); after reset(start_delay=d) at time t, whether running, waited upon, stopped or not started, the next tick is scheduled at t + d + interval, an unconsumed earlier tick is discarded, and a consumer already waiting gets exactly that tick. After stop() no new tick triggers: a pending consumer and later receives get ReceiverStoppedError (after at most one tick that had already triggered) until reset(); is_running tells the truth, and invalid arguments (interval below 1 microsecond, negative start_delay, start_delay without auto_start) raise ValueError.",
  ["histories", "schedules", "configurations"],
  "any sequence of create/reset/stop/ready/consume/receive/cancel at any virtual times, including while a consumer is waiting",
  "Tests start timers in four ways and validate three bad arguments; reset or stop while waiting is not tested, nor restart.",
  ["timer.py"],
  [("reset()/stop() rewrite the schedule", "timer.py:Timer.reset/stop"), ("ready() re-reads the schedule after sleeping", "timer.py:Timer.ready")], [("_stopped", "stop requested", "timer.py:Timer"), ("_next_tick_time", "scheduled time", "timer.py:Timer")],
  ["delivery times, drifts, is_running"])
p("C22", "FileWatcher reports every selected file change once, and only those",
  "Every change the operating-system watcher reports for the watched paths and whose type is in event_types is delivered exactly once as an Event with that type and path, changes of other types never are, and changes that occur while the consumer is busy between receives are not lost once watching has begun. This holds for any set of event types, any paths given as str or Path, any batches of changes, and also after a pending receive was cancelled (for changes made after the next wait has begun).",
  ["inputs", "histories", "schedules", "configurations"],
  "any event_types subset, any sequence and batching of create/modify/delete, any consumption style, cancellations between batches; real inotify runs and scripted watcher runs",
  "Tests feed three scripted single-change batches and two real timelines without cancellation.",
  ["file_watcher.py"],
  [("watch_filter given to awatch", "file_watcher.py:FileWatcher._filter_events"), ("one batch kept until consumed", "file_watcher.py:FileWatcher.ready/consume")], [("_changes", "undelivered changes of the current batch", "file_watcher.py:FileWatcher")],
  ["delivered events against the watcher's batches / against an independent watcher on the same directory"])
p("C23", "FileWatcher fails and stops cleanly, survives cancellation, frees its thread",
  "A FileWatcher whose underlying watcher ends or fails (for example a path that does not exist) is stopped: ready() returns False without raising, receive() raises ReceiverStoppedError with the reason as its cause, for good, and select() reports the stop exactly once. Cancelling a pending wait, or leaving a select() loop, does not stop the FileWatcher nor make the next receive() fail; a FileWatcher the program no longer references stops its background watching.",
  ["fault_sequences", "schedules", "histories"],
  "watcher end or failure at any batch, cancellation at any moment, re-use right after leaving select(), deletion while idle, after use or after a cancelled wait",
  "Nothing of this is tested.",
  ["file_watcher.py"],
  [("stop exception remembered", "file_watcher.py:FileWatcher.ready"), ("__del__ sets the stop event", "file_watcher.py:FileWatcher.__del__")], [("_awatch", "the watching generator", "file_watcher.py:FileWatcher"), ("_awatch_stopped_exc", "why it stopped", "file_watcher.py:FileWatcher")],
  ["outcomes after end/failure/cancellation", "watch threads alive"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for r in P:
    assert len(r["title"]) <= 80, (r["id"], len(r["title"]))
out.write_text("".join(json.dumps(r, ensure_ascii=False) + "\n" for r in P))
print(len(P), "properties")
