From 2ec6b217f466458db81dc97c7ec0269cb2c85926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 01/19] fix: Refuse Anycast sends that were waiting when the
 channel was closed

A sender waiting for room when the channel got closed went on to add its
message to the closed channel (where it got lost, or revived a receiver
which had already reported being stopped), or waited forever.
---
 src/frequenz/channels/_anycast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index 2ea0515..d925877 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -350,6 +350,10 @@ class _Sender(Sender[_T]):
             while len(self._channel._deque) == self._channel._deque.maxlen:
                 async with self._channel._send_cv:
                     await self._channel._send_cv.wait()
+                if self._channel._closed:
+                    raise SenderError(
+                        "The channel was closed", self
+                    ) from ChannelClosedError(self._channel)
             _logger.info(
                 "Anycast channel [%s] has space again, resuming the blocked sender",
                 self,
-- 
2.43.0


From 6e7636846ad7c22b25ce88f99aa1dd9cf65bf8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 02/19] fix: Don't lose Anycast notifications when the notified
 task is cancelled

The notification of a new message (or of new room in the buffer) was lost if
the task that got it was cancelled or timed out before it could run, leaving
other receivers (or senders) waiting although there was something to do.
---
 src/frequenz/channels/_anycast.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index d925877..10d3295 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -6,7 +6,7 @@
 from __future__ import annotations
 
 import logging
-from asyncio import Condition
+from asyncio import CancelledError, Condition
 from collections import deque
 from typing import Generic, TypeVar
 
@@ -304,6 +304,22 @@ class Anycast(Generic[ChannelMessageT]):
 _T = TypeVar("_T")
 
 
+async def _wait(condition: Condition) -> None:
+    """Wait for a condition, without losing the notification if cancelled.
+
+    If the waiting task is cancelled after it was notified but before it could run, then
+    the notification is passed on to another waiting task.
+
+    Args:
+        condition: The condition to wait for, its lock must be held.
+    """
+    try:
+        await condition.wait()
+    except CancelledError:
+        condition.notify(1)
+        raise
+
+
 class _Sender(Sender[_T]):
     """A sender to send messages to an Anycast channel.
 
@@ -349,7 +365,7 @@ class _Sender(Sender[_T]):
             )
             while len(self._channel._deque) == self._channel._deque.maxlen:
                 async with self._channel._send_cv:
-                    await self._channel._send_cv.wait()
+                    await _wait(self._channel._send_cv)
                 if self._channel._closed:
                     raise SenderError(
                         "The channel was closed", self
@@ -414,7 +430,7 @@ class _Receiver(Receiver[_T]):
             if self._channel._closed:
                 return False
             async with self._channel._recv_cv:
-                await self._channel._recv_cv.wait()
+                await _wait(self._channel._recv_cv)
         self._next = self._channel._deque.popleft()
         async with self._channel._send_cv:
             self._channel._send_cv.notify(1)
-- 
2.43.0


From 1a55dc8d0f974fe58e3882661bdb3fd1dda50f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 03/19] fix: Let overlapping Anycast ready() calls claim only
 one message

When the ready() call of a select() loop that was just left is still being
cancelled while the receiver is already used again, both calls could claim
a message, losing one of them, or leave the other one waiting forever.
---
 src/frequenz/channels/_anycast.py | 38 +++++++++++++++++++------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/frequenz/channels/_anycast.py b/src/frequenz/channels/_anycast.py
index 10d3295..d57ca81 100644
--- a/src/frequenz/channels/_anycast.py
+++ b/src/frequenz/channels/_anycast.py
@@ -6,7 +6,7 @@
 from __future__ import annotations
 
 import logging
-from asyncio import CancelledError, Condition
+from asyncio import CancelledError, Condition, Lock
 from collections import deque
 from typing import Generic, TypeVar
 
@@ -410,6 +410,13 @@ class _Receiver(Receiver[_T]):
 
         self._next: _T | type[_Empty] = _Empty
 
+        self._ready_lock: Lock = Lock()
+        """The lock to claim only one message at a time.
+
+        Two calls to `ready()` can overlap, for example while a `select()` loop that
+        was just left is still cancelling its call.
+        """
+
     async def ready(self) -> bool:
         """Wait until the receiver is ready with a message or an error.
 
@@ -421,21 +428,22 @@ class _Receiver(Receiver[_T]):
         Returns:
             Whether the receiver is still active.
         """
-        # if a message is already ready, then return immediately.
-        if self._next is not _Empty:
-            return True
+        async with self._ready_lock:
+            # if a message is already ready, then return immediately.
+            if self._next is not _Empty:
+                return True
 
-        # pylint: disable=protected-access
-        while len(self._channel._deque) == 0:
-            if self._channel._closed:
-                return False
-            async with self._channel._recv_cv:
-                await _wait(self._channel._recv_cv)
-        self._next = self._channel._deque.popleft()
-        async with self._channel._send_cv:
-            self._channel._send_cv.notify(1)
-        # pylint: enable=protected-access
-        return True
+            # pylint: disable=protected-access
+            while len(self._channel._deque) == 0:
+                if self._channel._closed:
+                    return False
+                async with self._channel._recv_cv:
+                    await _wait(self._channel._recv_cv)
+            self._next = self._channel._deque.popleft()
+            async with self._channel._send_cv:
+                self._channel._send_cv.notify(1)
+            # pylint: enable=protected-access
+            return True
 
     def consume(self) -> _T:
         """Return the latest message once `ready()` is complete.
-- 
2.43.0


From fe0423b8680f4ef7cbecddeeb277139aac42a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 04/19] fix: Resend the latest Broadcast message also if it is
 None

With resend_latest, a new receiver didn't get the latest message if it was
None, although None is a valid message.
---
 src/frequenz/channels/_broadcast.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index b217aa0..6fbf90e 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -213,6 +213,9 @@ class Broadcast(Generic[ChannelMessageT]):
         self._closed: bool = False
         """Whether the channel is closed."""
 
+        self._has_latest: bool = False
+        """Whether a message was sent to the channel since it was opened."""
+
         self._latest: ChannelMessageT | None = None
         """The latest message sent to the channel."""
 
@@ -258,6 +261,7 @@ class Broadcast(Generic[ChannelMessageT]):
         immediately.
         """
         self._latest = None
+        self._has_latest = False
         self._closed = True
         async with self._recv_cv:
             self._recv_cv.notify_all()
@@ -284,8 +288,8 @@ class Broadcast(Generic[ChannelMessageT]):
         """
         recv: _Receiver[ChannelMessageT] = _Receiver(self, name=name, limit=limit)
         self._receivers[hash(recv)] = weakref.ref(recv)
-        if self.resend_latest and self._latest is not None:
-            recv.enqueue(self._latest)
+        if self.resend_latest and self._has_latest:
+            recv.enqueue(self._latest)  # type: ignore[arg-type]
         return recv
 
     def __str__(self) -> str:
@@ -340,6 +344,7 @@ class _Sender(Sender[_T]):
                 self._channel
             )
         self._channel._latest = message
+        self._channel._has_latest = True
         stale_refs = []
         for _hash, recv_ref in self._channel._receivers.items():
             recv = recv_ref()
-- 
2.43.0


From 3cead0208b0aeb88a85491830ab488e3aa848587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 05/19] fix: Use a Broadcast logger that is part of the logging
 hierarchy

Loggers created with logging.Logger() have no parent, so the warning about
dropped messages ignored the logging configuration and never reached the
handlers of the application.
---
 src/frequenz/channels/_broadcast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index 6fbf90e..9c287b3 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -16,7 +16,7 @@ from ._generic import ChannelMessageT
 from ._receiver import Receiver, ReceiverStoppedError
 from ._sender import Sender, SenderError
 
-_logger = logging.Logger(__name__)
+_logger = logging.getLogger(__name__)
 
 
 class Broadcast(Generic[ChannelMessageT]):
-- 
2.43.0


From 573b6c449652cf10c5a106bc9abeaf283289b230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 06/19] fix: Let Event.ready() return True while there is an
 event to consume

If an event was set and then stopped before being consumed, ready() returned
False although consume() still returned the event, so select() removed the
receiver without ever reporting that it was stopped.
---
 src/frequenz/channels/event.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/frequenz/channels/event.py b/src/frequenz/channels/event.py
index 3f3b207..ad0c2d3 100644
--- a/src/frequenz/channels/event.py
+++ b/src/frequenz/channels/event.py
@@ -145,12 +145,13 @@ class Event(_receiver.Receiver[None]):
         """Wait until this receiver is ready.
 
         Returns:
-            Whether this receiver is still running.
+            Whether this receiver is still running, or has still an event to be
+                consumed.
         """
         if self._is_stopped:
-            return False
+            return self._is_set
         await self._event.wait()
-        return not self._is_stopped
+        return self._is_set or not self._is_stopped
 
     def consume(self) -> None:
         """Consume the event.
-- 
2.43.0


From 142d92e2b184fa34c28e3fc018585ab10fabc409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 07/19] fix: Return False from FileWatcher.ready() when it has
 stopped

When the underlying watcher ended, ready() returned True once more, so select()
reported that the file watcher was stopped twice.
---
 src/frequenz/channels/file_watcher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frequenz/channels/file_watcher.py b/src/frequenz/channels/file_watcher.py
index 57c3553..860c0bd 100644
--- a/src/frequenz/channels/file_watcher.py
+++ b/src/frequenz/channels/file_watcher.py
@@ -185,6 +185,7 @@ class FileWatcher(Receiver[Event]):
             self._changes = await anext(self._awatch)
         except StopAsyncIteration as err:
             self._awatch_stopped_exc = err
+            return False
 
         return True
 
-- 
2.43.0


From 3beb1238b6cd0b27a71a7bbb826c3b08fe471735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 08/19] fix: Stop the FileWatcher when the underlying watcher
 fails

An error of the underlying watcher, like a path that does not exist, was
raised by ready(), which aborts select() loops, and was forgotten afterwards.
---
 src/frequenz/channels/file_watcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequenz/channels/file_watcher.py b/src/frequenz/channels/file_watcher.py
index 860c0bd..e357833 100644
--- a/src/frequenz/channels/file_watcher.py
+++ b/src/frequenz/channels/file_watcher.py
@@ -183,7 +183,7 @@ class FileWatcher(Receiver[Event]):
 
         try:
             self._changes = await anext(self._awatch)
-        except StopAsyncIteration as err:
+        except Exception as err:  # pylint: disable=broad-except
             self._awatch_stopped_exc = err
             return False
 
-- 
2.43.0


From 00b0cd6b4175ee810c53c4fd027cc67946e14d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 09/19] fix: Don't stop the FileWatcher when a call to ready()
 is cancelled

Cancelling ready() terminates the awatch() generator, so a file watcher stopped
for good when a receive() timed out or a select() loop was left. Receiving
again while the cancelled call was still being unwound failed, as the generator
was still running.
---
 src/frequenz/channels/file_watcher.py | 50 ++++++++++++++++++---------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/frequenz/channels/file_watcher.py b/src/frequenz/channels/file_watcher.py
index e357833..0ef0401 100644
--- a/src/frequenz/channels/file_watcher.py
+++ b/src/frequenz/channels/file_watcher.py
@@ -134,11 +134,21 @@ class FileWatcher(Receiver[Event]):
             path if isinstance(path, pathlib.Path) else pathlib.Path(path)
             for path in paths
         ]
-        self._awatch: abc.AsyncGenerator[set[FileChange], None] = awatch(
-            *self._paths, stop_event=self._stop_event, watch_filter=self._filter_events
-        )
+        self._awatch: abc.AsyncGenerator[set[FileChange], None] = self._start_awatch()
         self._awatch_stopped_exc: Exception | None = None
         self._changes: set[FileChange] = set()
+        self._ready_lock: asyncio.Lock = asyncio.Lock()
+
+    def _start_awatch(self) -> abc.AsyncGenerator[set[FileChange], None]:
+        """Start watching the paths.
+
+        Returns:
+            The generator producing the changes.
+        """
+        self._stop_event = asyncio.Event()
+        return awatch(
+            *self._paths, stop_event=self._stop_event, watch_filter=self._filter_events
+        )
 
     def _filter_events(
         self,
@@ -173,21 +183,27 @@ class FileWatcher(Receiver[Event]):
         Returns:
             Whether the receiver is still active.
         """
-        # if there are messages waiting to be consumed, return immediately.
-        if self._changes:
-            return True
+        # another call might still be in the process of being cancelled.
+        async with self._ready_lock:
+            # if there are messages waiting to be consumed, return immediately.
+            if self._changes:
+                return True
+
+            # if it was already stopped, return immediately.
+            if self._awatch_stopped_exc is not None:
+                return False
+
+            try:
+                self._changes = await anext(self._awatch)
+            except asyncio.CancelledError:
+                # the cancellation terminates the generator, so a new one is needed.
+                self._awatch = self._start_awatch()
+                raise
+            except Exception as err:  # pylint: disable=broad-except
+                self._awatch_stopped_exc = err
+                return False
 
-        # if it was already stopped, return immediately.
-        if self._awatch_stopped_exc is not None:
-            return False
-
-        try:
-            self._changes = await anext(self._awatch)
-        except Exception as err:  # pylint: disable=broad-except
-            self._awatch_stopped_exc = err
-            return False
-
-        return True
+            return True
 
     def consume(self) -> Event:
         """Return the latest event once `ready` is complete.
-- 
2.43.0


From 363bf88432028b6178ab63f210c0d716a696f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 10/19] fix: Raise errors of merged receivers when they are
 consumed

An error in one of the merged receivers was raised by ready() and made the
merger forget about the other results that were available at the same time
and the receivers they came from.
---
 src/frequenz/channels/_merge.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index 6be4302..cadec34 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -120,7 +120,7 @@ class Merger(Receiver[ReceiverMessageT_co]):
             asyncio.create_task(anext(recv), name=name)
             for name, recv in self._receivers.items()
         }
-        self._results: deque[ReceiverMessageT_co] = deque(maxlen=len(self._receivers))
+        self._results: deque[asyncio.Task[Any]] = deque(maxlen=len(self._receivers))
 
     def __del__(self) -> None:
         """Finalize this merger."""
@@ -165,8 +165,8 @@ class Merger(Receiver[ReceiverMessageT_co]):
                 # if channel is closed, don't add a task for it again.
                 if isinstance(item.exception(), StopAsyncIteration):
                     continue
-                result = item.result()
-                self._results.append(result)
+                # errors are raised when the result is consumed.
+                self._results.append(item)
                 self._pending.add(
                     asyncio.create_task(anext(self._receivers[name]), name=name)
                 )
@@ -186,7 +186,8 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
         assert self._results, "`consume()` must be preceded by a call to `ready()`"
 
-        return self._results.popleft()
+        result: ReceiverMessageT_co = self._results.popleft().result()
+        return result
 
     def __str__(self) -> str:
         """Return a string representation of this receiver."""
-- 
2.43.0


From efd60a20839ce3f9384d40732abaffdd21d44d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 11/19] fix: Handle stop() and overlapping calls to ready() in
 Merger

If a Merger was stopped while some task was waiting for it, that task got a
CancelledError it was not the target of, and background tasks could be left
running. If a select() loop was left and the merger was used again right
away, the results were added twice.
---
 src/frequenz/channels/_merge.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index cadec34..96760a3 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -130,10 +130,10 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
     async def stop(self) -> None:
         """Stop this merger."""
-        for task in self._pending:
+        pending, self._pending = self._pending, set()
+        for task in pending:
             task.cancel()
-        await asyncio.gather(*self._pending, return_exceptions=True)
-        self._pending = set()
+        await asyncio.gather(*pending, return_exceptions=True)
 
     async def ready(self) -> bool:
         """Wait until the receiver is ready with a message or an error.
@@ -157,9 +157,13 @@ class Merger(Receiver[ReceiverMessageT_co]):
             if len(self._pending) == 0:
                 return False
 
-            done, self._pending = await asyncio.wait(
+            done, _ = await asyncio.wait(
                 self._pending, return_when=asyncio.FIRST_COMPLETED
             )
+            # tasks that aren't pending anymore were already taken care of by `stop()`
+            # or by another call that is still in the process of being cancelled.
+            done &= self._pending
+            self._pending -= done
             for item in done:
                 name = item.get_name()
                 # if channel is closed, don't add a task for it again.
-- 
2.43.0


From b120a001ca69d6e84fbb4ffb461c7b32cf5fe002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 12/19] fix: React to a Timer being reset or stopped while
 waiting for it

A reset() or stop() done while some task was waiting for the timer was only
noticed when the old tick was due, so earlier ticks were late and a stopped
timer was waited for (potentially much) longer than necessary.
---
 src/frequenz/channels/timer.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index 683db7b..6aac11c 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -561,6 +561,9 @@ class Timer(Receiver[timedelta]):
         to wait again.
         """
 
+        self._schedule_changed: asyncio.Event = asyncio.Event()
+        """Set when the timer is reset or stopped, to wake up any waiting `ready()`."""
+
         if auto_start:
             self.reset(start_delay=start_delay)
 
@@ -607,6 +610,7 @@ class Timer(Receiver[timedelta]):
         self._stopped = False
         self._next_tick_time = self._now() + start_delay_ms + self._interval
         self._current_drift = None
+        self._schedule_changed.set()
 
     def stop(self) -> None:
         """Stop the timer.
@@ -621,6 +625,7 @@ class Timer(Receiver[timedelta]):
         self._stopped = True
         # We need to make sure it's not None, otherwise `ready()` will start it
         self._next_tick_time = self._now()
+        self._schedule_changed.set()
 
     # We need a noqa here because the docs have a Raises section but the documented
     # exceptions are raised indirectly.
@@ -664,14 +669,25 @@ class Timer(Receiver[timedelta]):
         # could be reset while we are sleeping, in which case we need to recalculate
         # the time to the next tick and try again.
         while time_to_next_tick > 0:
-            await asyncio.sleep(time_to_next_tick / 1_000_000)
+            self._schedule_changed.clear()
+            try:
+                async with asyncio.timeout(time_to_next_tick / 1_000_000):
+                    await self._schedule_changed.wait()
+            except TimeoutError:
+                pass
+
+            # If another call (maybe in the process of being cancelled) triggered the
+            # tick in the meantime, there is nothing else to wait for.
+            if self._current_drift is not None:
+                return True
+
+            # If a stop was explicitly requested during the sleep, we bail out.
+            if self._stopped:
+                return False
+
             now = self._now()
             time_to_next_tick = self._next_tick_time - now
 
-        # If a stop was explicitly requested during the sleep, we bail out.
-        if self._stopped:
-            return False
-
         self._current_drift = timedelta(microseconds=now - self._next_tick_time)
         self._next_tick_time = self._missed_tick_policy.calculate_next_tick_time(
             now=now,
-- 
2.43.0


From 1f0ef749e23443ab1f313c7d3f06180f05221abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 13/19] fix: Allow selecting from receivers which have the same
 hash

Different receivers that compare equal (or just have the same hash) were
silently ignored by select().
---
 src/frequenz/channels/_select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_select.py b/src/frequenz/channels/_select.py
index e8b6e80..18e1f1c 100644
--- a/src/frequenz/channels/_select.py
+++ b/src/frequenz/channels/_select.py
@@ -423,7 +423,7 @@ async def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:
             method.  Normal errors while receiving messages are not raised, but reported
             via the `Selected` instance.
     """
-    receivers_map: dict[str, Receiver[Any]] = {str(hash(r)): r for r in receivers}
+    receivers_map: dict[str, Receiver[Any]] = {str(id(r)): r for r in receivers}
     pending: set[asyncio.Task[bool]] = set()
 
     try:
-- 
2.43.0


From ebfc64d3f1ecd18fb2ce675de38139b4a9e8523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 14/19] fix: Reject a negative Timer start_delay if auto_start
 is False

The documentation says that a ValueError is raised if start_delay is negative
or if it is used without auto_start, but this combination was accepted.
---
 src/frequenz/channels/timer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index 6aac11c..b29e037 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -509,6 +509,9 @@ class Timer(Receiver[timedelta]):
                 f"The `interval` must be positive and at least 1 microsecond, not {interval}"
             )
 
+        if start_delay < timedelta(0):
+            raise ValueError(f"`start_delay` can't be negative, got {start_delay}")
+
         if start_delay > timedelta(0) and auto_start is False:
             raise ValueError(
                 "`auto_start` must be `True` if a `start_delay` is specified"
-- 
2.43.0


From 8a5f9f767fe6c762f63a300da4d6fc9ea3961bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 15/19] fix: Show the name of a Broadcast receiver in its
 string representation

The documentation of the name says that it identifies the receiver in the logs
and is shown in the string representation, but it was not.
---
 src/frequenz/channels/_broadcast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index 9c287b3..deccb48 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -476,7 +476,7 @@ class _Receiver(Receiver[_T]):
 
     def __str__(self) -> str:
         """Return a string representation of this receiver."""
-        return f"{self._channel}:{type(self).__name__}"
+        return f"{self._channel}:{type(self).__name__}:{self._name}"
 
     def __repr__(self) -> str:
         """Return a string representation of this receiver."""
-- 
2.43.0


From ea9221871fdf67171cef6e9bc26e783fa104592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 16/19] fix: Report falsy exceptions raised by ready() as
 SelectError too

An exception class may define __bool__() or __len__(), so whether a
receiver failed must not be decided by the truth of the exception.
---
 src/frequenz/channels/_select.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frequenz/channels/_select.py b/src/frequenz/channels/_select.py
index 18e1f1c..6387264 100644
--- a/src/frequenz/channels/_select.py
+++ b/src/frequenz/channels/_select.py
@@ -439,7 +439,7 @@ async def select(*receivers: Receiver[Any]) -> AsyncIterator[Selected[Any]]:
                 receiver_active: bool = True
                 name = task.get_name()
                 recv = receivers_map[name]
-                if exception := task.exception():
+                if (exception := task.exception()) is not None:
                     match exception:
                         case asyncio.CancelledError():
                             # If the receiver was cancelled, then it means we want to
@@ -484,7 +484,7 @@ async def _stop_pending_tasks(pending: set[asyncio.Task[bool]]) -> None:
         for task in done:
             if task.cancelled():
                 continue
-            if exception := task.exception():
+            if (exception := task.exception()) is not None:
                 exceptions.append(exception)
         if exceptions:
             # If the select loop is interrupted by a break or exception, then this
-- 
2.43.0


From d836077451aa2569f62e05a0ef0fda40ce41c7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 17/19] fix: Let every call to Merger.stop() wait for the
 background tasks

If a call to stop() was still waiting for the cancelled tasks (or was cancelled
itself), then further calls returned immediately although the tasks were not done.
---
 src/frequenz/channels/_merge.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/frequenz/channels/_merge.py b/src/frequenz/channels/_merge.py
index 96760a3..fce7905 100644
--- a/src/frequenz/channels/_merge.py
+++ b/src/frequenz/channels/_merge.py
@@ -120,6 +120,7 @@ class Merger(Receiver[ReceiverMessageT_co]):
             asyncio.create_task(anext(recv), name=name)
             for name, recv in self._receivers.items()
         }
+        self._stopping: set[asyncio.Task[Any]] = set()
         self._results: deque[asyncio.Task[Any]] = deque(maxlen=len(self._receivers))
 
     def __del__(self) -> None:
@@ -130,10 +131,13 @@ class Merger(Receiver[ReceiverMessageT_co]):
 
     async def stop(self) -> None:
         """Stop this merger."""
-        pending, self._pending = self._pending, set()
-        for task in pending:
+        for task in self._pending:
             task.cancel()
-        await asyncio.gather(*pending, return_exceptions=True)
+        # another call to `stop()` might be waiting already, so wait for its tasks too.
+        self._stopping |= self._pending
+        self._pending = set()
+        await asyncio.gather(*self._stopping, return_exceptions=True)
+        self._stopping.clear()
 
     async def ready(self) -> bool:
         """Wait until the receiver is ready with a message or an error.
-- 
2.43.0


From 2874582921bc66ae8c21e1fa0a79b88fad5b935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 18/19] fix: Convert long intervals to microseconds without
 losing precision

Going through a float rounded times of more than about 285 years, and made it
impossible to get the interval (or tolerance) of timedelta.max back.
---
 src/frequenz/channels/timer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/timer.py b/src/frequenz/channels/timer.py
index b29e037..b6c2b57 100644
--- a/src/frequenz/channels/timer.py
+++ b/src/frequenz/channels/timer.py
@@ -116,7 +116,8 @@ def _to_microseconds(time: float | timedelta) -> int:
         The time in microseconds.
     """
     if isinstance(time, timedelta):
-        time = time.total_seconds()
+        # `total_seconds()` is not exact for very long times.
+        return time // timedelta(microseconds=1)
     return round(time * 1_000_000)
 
 
-- 
2.43.0


From 7b022afc808d437faf74cecae1c9213e8d44cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 19/19] fix: Don't fail to send if a Broadcast receiver has a
 limit of 0

The receiver tried to drop the oldest message of its empty queue, and send() raised
IndexError for everyone.
---
 src/frequenz/channels/_broadcast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frequenz/channels/_broadcast.py b/src/frequenz/channels/_broadcast.py
index deccb48..68818e1 100644
--- a/src/frequenz/channels/_broadcast.py
+++ b/src/frequenz/channels/_broadcast.py
@@ -416,11 +416,12 @@ class _Receiver(Receiver[_T]):
             message: The message to be sent.
         """
         if len(self._q) == self._q.maxlen:
-            self._q.popleft()
             _logger.warning(
                 "Broadcast receiver [%s] is full. Oldest message was dropped.",
                 self,
             )
+        # this drops the oldest message if the queue is full (or the new one if nothing
+        # fits at all).
         self._q.append(message)
 
     def __len__(self) -> int:
-- 
2.43.0

