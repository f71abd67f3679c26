From 2cd1b4cb412fc08d4f81bdc59e7959ceecd19f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 01/61] fix: Task.cancel_with losing the cancellation when the
 awaited future is already done

---
 scarletio/core/traps/task.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/traps/task.py b/scarletio/core/traps/task.py
index 34f6ee7..beed120 100755
--- a/scarletio/core/traps/task.py
+++ b/scarletio/core/traps/task.py
@@ -147,8 +147,10 @@ class Task(Future):
                 )
             
             waited_future = self._waited_future
-            if (waited_future is None) or waited_future.cancel():
-                state |= FUTURE_STATE_CANCELLING_SELF
+            if (waited_future is not None):
+                waited_future.cancel()
+            
+            state |= FUTURE_STATE_CANCELLING_SELF
             
             self._result = exception
             result = 1
-- 
2.43.0


From fc7c440cb9b5ba115baaacea8f4950a58d67d6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 02/61] fix: Lock being lost when a waiter is cancelled after
 the lock was handed over to it, awaiting a lock cancelling other waiters

---
 scarletio/core/traps/locks.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/traps/locks.py b/scarletio/core/traps/locks.py
index 2ebe9d5..7d0f6bb 100755
--- a/scarletio/core/traps/locks.py
+++ b/scarletio/core/traps/locks.py
@@ -72,7 +72,8 @@ class Lock:
                 try:
                     waiters.remove(waiter)
                 except ValueError:
-                    pass
+                    # The lock was already handed over to us. Since we will not use it, hand it over to the next one.
+                    self.release()
                 
                 raise
     
@@ -111,7 +112,10 @@ class Lock:
         """
         waiters = self._waiters
         while waiters:
-            yield from waiters[0]
+            # Others might be waiting on the same waiter, so wait for it without exposing it to our cancellation.
+            future = Future(self._loop)
+            waiters[0].add_done_callback(future.set_result_if_pending)
+            yield from future
     
     __await__ = __iter__
     
@@ -217,7 +221,8 @@ class ScarletLock(Lock):
                 try:
                     waiters.remove(waiter)
                 except ValueError:
-                    pass
+                    # The lock was already handed over to us. Since we will not use it, hand it over to the next one.
+                    self.release()
                 
                 raise
     
-- 
2.43.0


From 703239f21121860183fcca3eb2cb2b9d91aaf754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 03/61] fix: ScarletExecutor swallowing the exception of a task
 which failed before its block was left

---
 scarletio/core/traps/async_executing.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/traps/async_executing.py b/scarletio/core/traps/async_executing.py
index daff54f..680379a 100755
--- a/scarletio/core/traps/async_executing.py
+++ b/scarletio/core/traps/async_executing.py
@@ -374,12 +374,18 @@ class ScarletExecutor:
                 
                 raise exception
             
+            exception = self._exception
+            
             self._callback = None
             
             self._waiter = None
             self._loop = None
             self._exception = None
-            return False
+            
+            if exception is None:
+                return False
+            
+            raise exception
         
         active = self._active
         for future in active:
-- 
2.43.0


From bfff5597f13da8fbc6fe607cd869d471321e8002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 04/61] fix: AsyncQueue losing elements when receivers are
 cancelled, sharing an element between receivers and dropping elements when
 full

---
 scarletio/core/traps/queues.py | 364 ++++++++++++++++-----------------
 1 file changed, 178 insertions(+), 186 deletions(-)

diff --git a/scarletio/core/traps/queues.py b/scarletio/core/traps/queues.py
index 60b24c0..518e8aa 100755
--- a/scarletio/core/traps/queues.py
+++ b/scarletio/core/traps/queues.py
@@ -27,17 +27,20 @@ class AsyncQueue:
     _loop : ``EventThread``
         The loop to what the queue is bound to.
     
+    _max_length : `None | int`
+        The maximal length of the queue.
+    
     _results : `deque`
         The results of the queue, which can be retrieved by ``.result``, ``.result_no_wait``, or by awaiting it.
     
-    _set_result_waiters : `None`, `list` of ``Future``
-        Result setter waiters for the queue to become empty.
+    _set_result_waiters : `deque<(Future, object)>`
+        The producers (and their elements) waiting for room in the queue.
     
-    _waiter : ``None | Future``
-        If the queue is empty and it's result is already waited, then this future is set. It's result is set, by the
-        first ``.set_result``, ``.set_exception`` call.
+    _waiters : `deque<Future>`
+        The receivers waiting for an element. The results of these futures are set by ``.set_result``,
+        ``.set_exception`` calls.
     """
-    __slots__ = ('_exception', '_loop', '_results', '_set_result_waiters', '_waiter',)
+    __slots__ = ('_exception', '_loop', '_max_length', '_results', '_set_result_waiters', '_waiters',)
     
     def __new__(cls, loop, iterable = None, max_length = None, exception = None):
         """
@@ -69,23 +72,81 @@ class AsyncQueue:
                 )
         
         if iterable is None:
-            results = deque(maxlen = max_length)
+            results = deque()
         else:
-            results = deque(iterable, maxlen = max_length)
+            results = deque(deque(iterable, maxlen = max_length))
         
         self = object.__new__(cls)
         self._loop = loop
+        self._max_length = max_length
         self._results = results
-        self._waiter = None
+        self._waiters = deque()
         self._exception = exception
-        self._set_result_waiters = None
+        self._set_result_waiters = deque()
         return self
     
     
+    def _pop(self):
+        """
+        Removes and returns the next element of the queue.
+        
+        Returns
+        -------
+        element : `object`
+        """
+        return self._results.popleft()
+    
+    
+    def _undo_pop(self, element):
+        """
+        Puts back the element which was last taken from the queue.
+        
+        Parameters
+        ----------
+        element : `object`
+            The element to put back.
+        """
+        self._results.appendleft(element)
+    
+    
+    def _has_room(self):
+        """
+        Returns whether an element can be put on the queue without exceeding its max length.
+        
+        Returns
+        -------
+        has_room : `bool`
+        """
+        max_length = self._max_length
+        return (max_length is None) or (len(self._results) < max_length)
+    
+    
+    def _feed(self, element):
+        """
+        Gives the element to the first receiver waiting for one.
+        
+        Parameters
+        ----------
+        element : `object`
+            The element to give.
+        
+        Returns
+        -------
+        fed : `bool`
+            Whether there was a receiver waiting.
+        """
+        waiters = self._waiters
+        while waiters:
+            if waiters.popleft().set_result_if_pending(element):
+                return True
+        
+        return False
+    
+    
     def set_result(self, element):
         """
         Puts the given `element` on the queue. If the queue is empty and it's result is already waited, feeds it to
-        ``._waiter`` instead.
+        the first receiver instead.
         
         Parameters
         ----------
@@ -98,21 +159,14 @@ class AsyncQueue:
             If the result was set instantly, return `0`. If the result was not set, returns `1`.
         """
         # should we raise InvalidStateError?
-        waiter = self._waiter
-        if waiter is None:
-            results = self._results
-            max_length = results.maxlen
-            if (max_length is None) or (len(results) < max_length):
-                results.append(element)
-                set_result = 0
-            else:
-                set_result = 1
-        else:
-            self._waiter = None
-            waiter.set_result_if_pending(element)
-            set_result = 0
+        if self._feed(element):
+            return 0
         
-        return set_result
+        if self._has_room():
+            self._results.append(element)
+            return 0
+        
+        return 1
     
     
     async def set_result_wait(self, element):
@@ -132,55 +186,37 @@ class AsyncQueue:
             If the result was set instantly, return `0`. If the result was not set, returns `1`. If you needed to wait
             for setting the result, returns `2`.
         """
-        waiter = self._waiter
-        if waiter is None:
-            results = self._results
-            max_length = results.maxlen
-            if (max_length is None) or (len(results) < max_length):
-                results.append(element)
-                set_result = 0
-            else:
-                set_result_waiters = self._set_result_waiters
-                if (set_result_waiters is None):
-                    set_result_waiters = []
-                    self._set_result_waiters = set_result_waiters
-                
-                waiter = Future(self._loop)
-                
-                set_result_waiters.append(waiter)
-                
-                try:
-                    can_set_result = await waiter
-                except:
-                    try:
-                        set_result_waiters.remove(waiter)
-                    except ValueError:
-                        pass
-                    else:
-                        if not set_result_waiters:
-                            self._set_result_waiters = None
-                    
-                    raise
-                
-                else:
-                    if can_set_result:
-                        results.append(element)
-                        set_result = 2
-                    else:
-                        set_result = 1
-                
-        else:
-            self._waiter = None
-            waiter.set_result_if_pending(element)
-            set_result = 0
+        if self._feed(element):
+            return 0
+        
+        if self._has_room():
+            self._results.append(element)
+            return 0
+        
+        waiter = Future(self._loop)
+        item = (waiter, element)
+        self._set_result_waiters.append(item)
         
-        return set_result
+        try:
+            was_set = await waiter
+        except:
+            try:
+                self._set_result_waiters.remove(item)
+            except ValueError:
+                pass
+            
+            raise
+        
+        if was_set:
+            return 2
+        
+        return 1
     
     
     def set_exception(self, exception):
         """
         Sets the given `exception` to raise, when it's queue gets empty. If the queue is empty and it's result is
-        already waited, feeds it to ``._waiter`` instead.
+        already waited, feeds it to all of its receivers instead.
         
         Parameters
         ----------
@@ -203,19 +239,15 @@ class AsyncQueue:
         
         self._exception = exception
         
-        waiter = self._waiter
-        if (waiter is not None):
-            self._waiter = None
-            waiter.set_exception_if_pending(exception)
+        waiters = self._waiters
+        while waiters:
+            waiters.popleft().set_exception_if_pending(exception)
         
         # cancel all waiters
         set_result_waiters = self._set_result_waiters
-        if (set_result_waiters is not None):
-            self._set_result_waiters = None
-            
-            while set_result_waiters:
-                set_result_waiters.pop(0).set_result_if_pending(False)
-            
+        while set_result_waiters:
+            set_result_waiters.popleft()[0].set_result_if_pending(False)
+    
     
     def __await__(self):
         """
@@ -234,23 +266,23 @@ class AsyncQueue:
         BaseException
             Exception set to the queue, to raise when it is empty.
         """
-        results = self._results
-        if results:
-            return results.popleft()
+        if self._results:
+            result = self._pop()
+            self._poll_from_set_result_waiters()
+            return result
         
         exception = self._exception
         if exception is not None:
             raise exception
         
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
+        waiter = Future(self._loop)
+        self._waiters.append(waiter)
         
         try:
             return (yield from waiter)
-        finally:
-            self._poll_from_set_result_waiters()
+        except:
+            self._undo_wait(waiter)
+            raise
     
     get_result = to_coroutine(copy_func(__await__))
     
@@ -259,21 +291,35 @@ class AsyncQueue:
         return self.get_result
     
     
+    def _undo_wait(self, waiter):
+        """
+        Called when a receiver stopped waiting. If an element was already given to it, passes it on.
+        
+        Parameters
+        ----------
+        waiter : ``Future``
+            The receiver's waiter.
+        """
+        try:
+            self._waiters.remove(waiter)
+        except ValueError:
+            pass
+        
+        if waiter.is_done() and (not waiter.is_cancelled()) and (waiter.get_exception() is None):
+            element = waiter.get_result()
+            if not self._feed(element):
+                self._undo_pop(element)
+    
+    
     def _poll_from_set_result_waiters(self):
         """
-        Polls one future from set result waiters.
+        Moves the elements of the waiting producers to the queue till it has room.
         """
         set_result_waiters = self._set_result_waiters
-        if (set_result_waiters is not None):
-            while True:
-                set_result = set_result_waiters.pop(0).set_result_if_pending(True)
-                
-                if (not set_result_waiters):
-                    self._set_result_waiters = None
-                    break
-                
-                if set_result == 1:
-                    break
+        while set_result_waiters and self._has_room():
+            waiter, element = set_result_waiters.popleft()
+            if waiter.set_result_if_pending(True):
+                self._results.append(element)
     
     
     def get_result_no_wait(self):
@@ -294,9 +340,8 @@ class AsyncQueue:
         BaseException
             Exception set to the queue, to raise when it is empty.
         """
-        results = self._results
-        if results:
-            result = results.popleft()
+        if self._results:
+            result = self._pop()
             self._poll_from_set_result_waiters()
             return result
         
@@ -334,7 +379,7 @@ class AsyncQueue:
             
         repr_parts.append(']')
         
-        max_length = results.maxlen
+        max_length = self._max_length
         if (max_length is not None):
             repr_parts.append(', max_length = ')
             repr_parts.append(repr(max_length))
@@ -382,28 +427,14 @@ class AsyncQueue:
         BaseException
             Exception set to the queue, to raise when it is empty.
         """
-        results = self._results
-        if results:
-            result = results.popleft()
-            self._poll_from_set_result_waiters()
-            return result
-        
-        exception = self._exception
-        if exception is not None:
-            if type(exception) is CancelledError:
-                raise StopAsyncIteration from CancelledError
-            
-            raise exception
-        
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
         try:
-            return (await waiter)
+            return await self
         except CancelledError as err:
-            raise StopAsyncIteration from err
+            # Stop only if the queue was cancelled, not if the task iterating over it.
+            if err is self._exception:
+                raise StopAsyncIteration from err
+            
+            raise
     
     # deque operations
     
@@ -416,7 +447,7 @@ class AsyncQueue:
         -------
         max_length: `int`
         """
-        return self._results.maxlen
+        return self._max_length
     
     
     def clear(self):
@@ -424,6 +455,7 @@ class AsyncQueue:
         Clears the queue's results.
         """
         self._results.clear()
+        self._poll_from_set_result_waiters()
     
     
     def copy(self):
@@ -437,10 +469,11 @@ class AsyncQueue:
         new = object.__new__(type(self))
         
         new._loop = self._loop
+        new._max_length = self._max_length
         new._results = self._results.copy()
-        new._waiter = None
+        new._waiters = deque()
         new._exception = self._exception
-        new._set_result_waiters = None
+        new._set_result_waiters = deque()
         
         return new
     
@@ -462,14 +495,13 @@ class AsyncQueue:
     if __debug__:
         def __del__(self):
             """
-            If the queue has ``_waiter`` set, silences it.
+            Silences the waiting receivers of the queue.
             
             Notes
             -----
             This function is only present, when `__debug__` is set as `True`.
             """
-            waiter = self._waiter
-            if waiter is not None:
+            for waiter in self._waiters:
                 waiter.silence()
 
 
@@ -484,70 +516,30 @@ class AsyncLifoQueue(AsyncQueue):
     ----------
     _exception : `None`, `BaseException`
         The exception set as the queue's result to raise, when the queue gets empty.
+    
     _loop : ``EventThread``
         The loop to what the queue is bound to.
+    
+    _max_length : `None | int`
+        The maximal length of the queue.
+    
     _results : `deque`
         The results of the queue, which can be retrieved by ``.result``, ``.result_no_wait``, or by awaiting it.
-    _waiter : ``None | Future``
-        If the queue is empty and it's result is already waited, then this future is set. It's result is set, by the
-        first ``.set_result``, ``.set_exception`` call.
-    """
-    __slots__ = ()
-    
-    @copy_docs(AsyncQueue.__await__)
-    def __await__(self):
-        results = self._results
-        if results:
-            return results.pop()
-        
-        exception = self._exception
-        if exception is not None:
-            raise exception
-        
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
-        return (yield from waiter)
     
-    @copy_docs(AsyncQueue.result_no_wait)
-    def get_result_no_wait(self):
-        results = self._results
-        if results:
-            return results.pop()
-        
-        exception = self._exception
-        if exception is None:
-            raise IndexError('The queue is empty')
-        
-        raise exception
+    _set_result_waiters : `deque<(Future, object)>`
+        The producers (and their elements) waiting for room in the queue.
     
+    _waiters : `deque<Future>`
+        The receivers waiting for an element. The results of these futures are set by ``.set_result``,
+        ``.set_exception`` calls.
+    """
+    __slots__ = ()
     
-    @property
-    def result_no_wait(self):
-        return self.get_result_no_wait
+    @copy_docs(AsyncQueue._pop)
+    def _pop(self):
+        return self._results.pop()
     
     
-    @copy_docs(AsyncQueue.__anext__)
-    async def __anext__(self):
-        results = self._results
-        if results:
-            return results.pop()
-        
-        exception = self._exception
-        if exception is not None:
-            if type(exception) is CancelledError:
-                raise StopAsyncIteration from CancelledError
-            
-            raise exception
-        
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
-        try:
-            return (await waiter)
-        except CancelledError as err:
-            raise StopAsyncIteration from err
+    @copy_docs(AsyncQueue._undo_pop)
+    def _undo_pop(self, element):
+        self._results.append(element)
-- 
2.43.0


From e7cfdc12c101f0cded98a0d1f09c3cd13d9592fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 05/61] fix: TaskGroup losing a future to a cancelled popping
 waiter, handling a future added twice twice

---
 scarletio/core/traps/task_group.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scarletio/core/traps/task_group.py b/scarletio/core/traps/task_group.py
index 01806fa..c07ee15 100755
--- a/scarletio/core/traps/task_group.py
+++ b/scarletio/core/traps/task_group.py
@@ -459,6 +459,10 @@ class TaskGroup(RichAttributeErrorBaseType):
         should_add_to_done = 1
         
         for waiter, handler in self.waiters.items():
+            # The waiter might be cancelled already, it must not take the future.
+            if waiter.is_done():
+                continue
+            
             try:
                 should_add_to_done &= handler.send(future)
             except StopIteration as err:
@@ -560,6 +564,9 @@ class TaskGroup(RichAttributeErrorBaseType):
         task_group = TaskGroup(loop, [Task(loop, coro(12)), Future(loop)])
         ```
         """
+        if (future in self.pending) or (future in self.done):
+            return future
+        
         if future.is_done():
             self._waited_done_callback(future)
         else:
-- 
2.43.0


From bfce1a83891cb319fac52d25e147f1177cfc4fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 06/61] fix: a cycler cancelled, rescheduled or modified by its
 own functions or created outside its loop

---
 scarletio/core/event_loop/cycler.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/scarletio/core/event_loop/cycler.py b/scarletio/core/event_loop/cycler.py
index 372f957..3c5011f 100755
--- a/scarletio/core/event_loop/cycler.py
+++ b/scarletio/core/event_loop/cycler.py
@@ -7,6 +7,8 @@ from ...utils import CallableAnalyzer, include
 from ..time import LOOP_TIME
 from ..traps import Task
 
+from .handles import TimerHandle
+
 
 write_exception_async = include('write_exception_async')
 
@@ -238,11 +240,12 @@ class Cycler:
         self.funcs = validated_funcs
         self.cycle_time = cycle_time
         if current_thread() is loop:
-            handle = loop.call_after(cycle_time, cls._run, self)
+            self.handle = loop.call_after(cycle_time, cls._run, self)
         else:
-            handle = loop.call_soon_thread_safe_lazy(type(loop).call_after, loop, cycle_time, cls._run, self)
-        
-        self.handle = handle
+            # The real handle has to be created inside of the event loop, so till then use a placeholder.
+            self.handle = TimerHandle(LOOP_TIME() + cycle_time, cls._run, (self,))
+            if loop.call_soon_thread_safe_lazy(cls._reschedule, self) is None:
+                self.handle = None
         
         return self
     
@@ -250,7 +253,12 @@ class Cycler:
         """
         Runs all the functions added to the cycler.
         """
-        for func in self.funcs:
+        # The functions may cancel, call or reschedule the cycler and can modify its functions as well.
+        # To know whether they already decided about our next call, mark this one with its own handle.
+        handle = TimerHandle(LOOP_TIME(), type(self)._run, (self,))
+        self.handle = handle
+        
+        for func in self.funcs.copy():
             try:
                 result = func.func(self)
                 if func.is_async:
@@ -267,7 +275,8 @@ class Cycler:
                     loop = self.loop,
                 )
         
-        self.handle = self.loop.call_after(self.cycle_time, type(self)._run, self)
+        if self.handle is handle:
+            self.handle = self.loop.call_after(self.cycle_time, type(self)._run, self)
     
     def __repr__(self):
         """Returns the cycler's representation."""
-- 
2.43.0


From 0b0c3674f9407666a361ccd5154b3e2981af8eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 07/61] fix: comparing cycler callables of different priorities

---
 scarletio/core/event_loop/cycler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/event_loop/cycler.py b/scarletio/core/event_loop/cycler.py
index 3c5011f..a365213 100755
--- a/scarletio/core/event_loop/cycler.py
+++ b/scarletio/core/event_loop/cycler.py
@@ -101,7 +101,7 @@ class CyclerCallable:
         if self_priority > other_priority:
             return True
         
-        if other_priority == other_priority:
+        if self_priority == other_priority:
             if self.func == other.func:
                 return True
         
@@ -136,7 +136,7 @@ class CyclerCallable:
         if self_priority < other_priority:
             return True
         
-        if other_priority == other_priority:
+        if self_priority == other_priority:
             if self.func == other.func:
                 return True
         
-- 
2.43.0


From 639dbea2cd83b4e78124eb656cf290c49d6db6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 08/61] fix: comparing ignore case strings

---
 scarletio/utils/ignore_case_string.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scarletio/utils/ignore_case_string.py b/scarletio/utils/ignore_case_string.py
index 476deb2..3239dc4 100755
--- a/scarletio/utils/ignore_case_string.py
+++ b/scarletio/utils/ignore_case_string.py
@@ -78,9 +78,19 @@ class IgnoreCaseString(str):
             other_value = other._case_fold
         elif other_type is str:
             other_value = other.casefold()
-        elif issubclass(other, str):
+        elif issubclass(other_type, str):
             other_value = str.casefold(other)
         else:
             return NotImplemented
         
         return (self._case_fold == other_value)
+    
+    
+    @has_docs
+    def __ne__(self, other):
+        """Returns whether the two strings are different."""
+        equals = self.__eq__(other)
+        if equals is NotImplemented:
+            return NotImplemented
+        
+        return (not equals)
-- 
2.43.0


From e92c3368a784e6b2c2698595faee928bce6a3876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 09/61] fix: pickling multi value dictionaries and looking up
 their items ignoring case

---
 scarletio/utils/multi_value_dictionary.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scarletio/utils/multi_value_dictionary.py b/scarletio/utils/multi_value_dictionary.py
index e488c1d..a0d74a3 100755
--- a/scarletio/utils/multi_value_dictionary.py
+++ b/scarletio/utils/multi_value_dictionary.py
@@ -36,9 +36,8 @@ class _MultiValueDictionaryItemIterator(DictionaryItemIteratorBase):
         
         key, value = item
         
-        try:
-            values = dict.__getitem__(self._parent, key)
-        except KeyError:
+        values = self._parent.get_all(key)
+        if values is None:
             return False
         
         return value in values
@@ -199,7 +198,7 @@ class MultiValueDictionary(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-        return (type(self), [*self.items()])
+        return (type(self), ([*self.items()],))
     
     
     @has_docs
-- 
2.43.0


From 7826c596f9059e80eedd04a1b6d3a60107135752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 10/61] fix: ignore case dictionaries looked keys up case
 sensitively

---
 .../ignore_case_multi_value_dictionary.py     | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/scarletio/utils/ignore_case_multi_value_dictionary.py b/scarletio/utils/ignore_case_multi_value_dictionary.py
index 388e15f..944ecbc 100755
--- a/scarletio/utils/ignore_case_multi_value_dictionary.py
+++ b/scarletio/utils/ignore_case_multi_value_dictionary.py
@@ -1,5 +1,7 @@
 __all__ = ('IgnoreCaseMultiValueDictionary', )
 
+from collections.abc import KeysView
+
 from .docs import copy_docs, has_docs
 from .ignore_case_string import IgnoreCaseString
 from .multi_value_dictionary import MultiValueDictionary
@@ -28,14 +30,9 @@ class IgnoreCaseMultiValueDictionary(MultiValueDictionary):
             for key, values in dict.items(iterable):
                 set_item(self, key, values.copy())
         
-        elif isinstance(iterable, MultiValueDictionary):
-            for key, values in dict.items(iterable):
-                set_item(self, IgnoreCaseString(key), values.copy())
-        
         elif isinstance(iterable, dict):
-            for key, value in iterable.items():
-                key = IgnoreCaseString(key)
-                set_item(self, key, [value])
+            # Keys of it might differ only by case.
+            self.extend(iterable)
         
         else:
             for item in iterable:
@@ -57,6 +54,12 @@ class IgnoreCaseMultiValueDictionary(MultiValueDictionary):
                         values.append(value)
     
     
+    def __contains__(self, key):
+        """Returns whether the dictionary contains the given key."""
+        key = IgnoreCaseString(key)
+        return dict.__contains__(self, key)
+    
+    
     @copy_docs(MultiValueDictionary.__getitem__)
     def __getitem__(self, key):
         key = IgnoreCaseString(key)
@@ -75,6 +78,11 @@ class IgnoreCaseMultiValueDictionary(MultiValueDictionary):
         MultiValueDictionary.__delitem__(self, key)
     
     
+    @copy_docs(MultiValueDictionary.keys)
+    def keys(self):
+        return KeysView(self)
+    
+    
     @copy_docs(MultiValueDictionary.extend)
     def extend(self, mapping):
         getitem = dict.__getitem__
-- 
2.43.0


From b180926b3f4b24f98a41c37e3068602222d16458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 11/61] fix: extending a sorted list with itself

---
 scarletio/utils/sorted_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scarletio/utils/sorted_list.py b/scarletio/utils/sorted_list.py
index 957c39a..89f8246 100755
--- a/scarletio/utils/sorted_list.py
+++ b/scarletio/utils/sorted_list.py
@@ -155,6 +155,9 @@ class SortedList(list):
         iterable : `iterable`
             Iterable object to extend the SortedList with.
         """
+        if iterable is self:
+            iterable = self.copy()
+        
         ln = len(self)
         insert = list.insert
         bot = 0
-- 
2.43.0


From 43f7d94d1fec1d6b2f312a86b7c1b49ece1ada1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:25 +0000
Subject: [PATCH 12/61] fix: reducing weak containers

---
 scarletio/utils/hybrid_value_dictionary.py | 2 +-
 scarletio/utils/weak_item_dictionary.py    | 2 +-
 scarletio/utils/weak_key_dictionary.py     | 2 +-
 scarletio/utils/weak_map.py                | 2 +-
 scarletio/utils/weak_set.py                | 2 +-
 scarletio/utils/weak_value_dictionary.py   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index 1283510..2ae87e5 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -338,7 +338,7 @@ class HybridValueDictionary(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-        return (type(self), list(self.items()))
+        return (type(self), (list(self.items()),))
     
     
     @has_docs
diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index d0dacce..683c538 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -368,7 +368,7 @@ class WeakItemDictionary(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-        return (type(self), list(self.items()))
+        return (type(self), (list(self.items()),))
     
     
     @has_docs
diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index 2f6ed0e..efb2399 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -341,7 +341,7 @@ class WeakKeyDictionary(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-        return (type(self), list(self.items()))
+        return (type(self), (list(self.items()),))
     
     
     @has_docs
diff --git a/scarletio/utils/weak_map.py b/scarletio/utils/weak_map.py
index 67c6718..617a2dc 100755
--- a/scarletio/utils/weak_map.py
+++ b/scarletio/utils/weak_map.py
@@ -257,7 +257,7 @@ class WeakMap(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the map to a picklable object."""
-        return (type(self), list(self))
+        return (type(self), (list(self),))
     
     
     @has_docs
diff --git a/scarletio/utils/weak_set.py b/scarletio/utils/weak_set.py
index 1011e48..c24eb22 100755
--- a/scarletio/utils/weak_set.py
+++ b/scarletio/utils/weak_set.py
@@ -504,7 +504,7 @@ class WeakSet(set):
     @has_docs
     def __reduce__(self):
         """Reduces the set to a picklable object."""
-        return (type(self), list(self))
+        return (type(self), (list(self),))
     
     
     @has_docs
diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index 10c71e8..2290dec 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -367,7 +367,7 @@ class WeakValueDictionary(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-        return (type(self), list(self.items()))
+        return (type(self), (list(self.items()),))
     
     
     @has_docs
-- 
2.43.0


From 8a6faeb6b3d12c9012eab1d81f699fd44ab756dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 13/61] fix: popping an absent key of a hybrid value dictionary

---
 scarletio/utils/hybrid_value_dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index 2ae87e5..ad899c6 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -532,7 +532,7 @@ class HybridValueDictionary(dict):
         """
         value_pair = dict.pop(self, key, ...)
         
-        if (value_pair is not default):
+        if (value_pair is not ...):
             value_weakreferable, value_or_reference = value_pair
             
             if (not value_weakreferable):
-- 
2.43.0


From b55394cf4cd99c3bd4df85cb32740cf92ea8c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 14/61] fix: looking up an item of a weak key dictionary with
 None value

---
 scarletio/utils/weak_key_dictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index efb2399..b8061bb 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -166,8 +166,8 @@ class _WeakKeyDictionaryItemIterator(DictionaryItemIteratorBase):
         except TypeError:
             return False
         
-        value = dict.get(self._parent, contains_key_reference)
-        if value is None:
+        value = dict.get(self._parent, contains_key_reference, ...)
+        if value is ...:
             return False
         
         return (value == contains_value)
-- 
2.43.0


From 508af05d15ba8ffc9bc238ea234f58a340380071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 15/61] fix: comparing weak containers while they are iterated

---
 scarletio/utils/hybrid_value_dictionary.py | 10 ++++----
 scarletio/utils/weak_item_dictionary.py    | 10 ++++----
 scarletio/utils/weak_key_dictionary.py     | 10 ++++----
 scarletio/utils/weak_map.py                | 10 ++++----
 scarletio/utils/weak_set.py                | 28 ++++++++++++++--------
 scarletio/utils/weak_value_dictionary.py   | 10 ++++----
 6 files changed, 48 insertions(+), 30 deletions(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index ad899c6..140c73a 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -231,9 +231,10 @@ class HybridValueDictionary(dict):
     def __eq__(self, other):
         """Returns whether the two dictionaries are the same."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            # Either might hold dead entries if it is being iterated.
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -315,9 +316,10 @@ class HybridValueDictionary(dict):
     def __ne__(self, other):
         """Returns whether the two dictionaries are different."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            # Either might hold dead entries if it is being iterated.
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index 683c538..8c47c41 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -259,9 +259,10 @@ class WeakItemDictionary(dict):
     def __eq__(self, other):
         """Returns whether the two dictionaries are the same."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            # Either might hold dead entries if it is being iterated.
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -345,9 +346,10 @@ class WeakItemDictionary(dict):
     def __ne__(self, other):
         """Returns whether the two dictionaries are different."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            # Either might hold dead entries if it is being iterated.
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index b8061bb..776b7e3 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -247,9 +247,10 @@ class WeakKeyDictionary(dict):
     def __eq__(self, other):
         """Returns whether the two dictionaries are the same."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            # Either might hold dead entries if it is being iterated.
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -318,9 +319,10 @@ class WeakKeyDictionary(dict):
     def __ne__(self, other):
         """Returns whether the two dictionaries are different."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            # Either might hold dead entries if it is being iterated.
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
diff --git a/scarletio/utils/weak_map.py b/scarletio/utils/weak_map.py
index 617a2dc..f2a64cd 100755
--- a/scarletio/utils/weak_map.py
+++ b/scarletio/utils/weak_map.py
@@ -136,9 +136,10 @@ class WeakMap(dict):
     def __eq__(self, other):
         """returns whether the two weak maps are equal."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            # Either might hold dead entries if it is being iterated.
+            other = set(iter(other))
         
-        if isinstance(other, set):
+        elif isinstance(other, set):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -237,9 +238,10 @@ class WeakMap(dict):
     def __ne__(self, other):
         """returns whether the two weak maps are equal."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            # Either might hold dead entries if it is being iterated.
+            other = set(iter(other))
         
-        if isinstance(other, set):
+        elif isinstance(other, set):
             pass
         
         elif hasattr(type(other), '__iter__'):
diff --git a/scarletio/utils/weak_set.py b/scarletio/utils/weak_set.py
index c24eb22..095da71 100755
--- a/scarletio/utils/weak_set.py
+++ b/scarletio/utils/weak_set.py
@@ -150,9 +150,10 @@ class WeakSet(set):
     
     def __eq__(self, other):
         if isinstance(other, type(self)):
-            return set.__eq__(self, other)
+            # Either might hold dead elements if it is being iterated.
+            other = set(iter(other))
         
-        if isinstance(other, set):
+        elif isinstance(other, set):
             pass
         
         elif is_iterable(other):
@@ -176,7 +177,8 @@ class WeakSet(set):
     def __ge__(self, other):
         """Returns whether every element in other is in the set."""
         if isinstance(other, type(self)):
-            return set.__ge__(self, other)
+            # Either might hold dead elements if it is being iterated.
+            other = set(iter(other))
         
         elif isinstance(other, set):
             pass
@@ -199,7 +201,8 @@ class WeakSet(set):
     def __gt__(self, other):
         """Returns whether the set is a proper superset of other."""
         if isinstance(other, type(self)):
-            return set.__gt__(self, other)
+            # Either might hold dead elements if it is being iterated.
+            other = set(iter(other))
         
         elif isinstance(other, set):
             pass
@@ -404,7 +407,8 @@ class WeakSet(set):
     def __le__(self, other):
         """Returns whether every element in the set is in other."""
         if isinstance(other, type(self)):
-            return set.__le__(self, other)
+            # Either might hold dead elements if it is being iterated.
+            other = set(iter(other))
         
         elif isinstance(other, set):
             pass
@@ -435,7 +439,8 @@ class WeakSet(set):
     def __lt__(self, other):
         """Test whether the set is a proper superset of other"""
         if isinstance(other, type(self)):
-            return set.__lt__(self, other)
+            # Either might hold dead elements if it is being iterated.
+            other = set(iter(other))
         
         elif isinstance(other, set):
             pass
@@ -453,9 +458,10 @@ class WeakSet(set):
     
     def  __ne__(self, other):
         if isinstance(other, type(self)):
-            return set.__ne__(self, other)
+            # Either might hold dead elements if it is being iterated.
+            other = set(iter(other))
         
-        if isinstance(other, set):
+        elif isinstance(other, set):
             pass
         
         elif is_iterable(other):
@@ -936,7 +942,8 @@ class WeakSet(set):
             - If an element of `iterable` is not hashable.
         """
         if isinstance(iterable, type(self)):
-            return set.__le__(self, iterable)
+            # Either might hold dead elements if it is being iterated.
+            iterable = set(iter(iterable))
         
         elif isinstance(iterable, set):
             pass
@@ -973,7 +980,8 @@ class WeakSet(set):
             - If an element of `iterable` is not hashable.
         """
         if isinstance(iterable, type(self)):
-            return set.__ge__(self, iterable)
+            # Either might hold dead elements if it is being iterated.
+            iterable = set(iter(iterable))
         
         elif isinstance(iterable, set):
             pass
diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index 2290dec..03b5cda 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -264,9 +264,10 @@ class WeakValueDictionary(dict):
     def __eq__(self, other):
         """Returns whether the two dictionaries are the same."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            # Either might hold dead entries if it is being iterated.
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -344,9 +345,10 @@ class WeakValueDictionary(dict):
     def __ne__(self, other):
         """Returns whether the two dictionaries are different."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            # Either might hold dead entries if it is being iterated.
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
-- 
2.43.0


From 865d8b5c5f7496aa39840f23cacb1dd3feb14c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 16/61] fix: length of weak containers while they are iterated

---
 scarletio/utils/hybrid_value_dictionary.py | 12 +++++++-----
 scarletio/utils/weak_item_dictionary.py    | 12 +++++++-----
 scarletio/utils/weak_key_dictionary.py     |  9 ++++-----
 scarletio/utils/weak_map.py                |  9 ++++-----
 scarletio/utils/weak_set.py                |  9 ++++-----
 scarletio/utils/weak_value_dictionary.py   |  9 ++++-----
 6 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index 140c73a..f95fa58 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -303,12 +303,14 @@ class HybridValueDictionary(dict):
     @has_docs
     def __len__(self):
         """Returns the length of the hybrid value dictionary."""
-        length = dict.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return dict.__len__(self)
         
-        return length
+        # Dead entries could have been removed or replaced since they were marked to be removed.
+        return sum(
+            (not value_weakreferable) or (value_or_reference() is not None)
+            for value_weakreferable, value_or_reference in dict.values(self)
+        )
     
     # __lt__ -> same
     
diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index 8c47c41..5ab294e 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -334,12 +334,14 @@ class WeakItemDictionary(dict):
     @has_docs
     def __len__(self):
         """Returns the length of the weak item dictionary."""
-        length = dict.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return dict.__len__(self)
         
-        return length
+        # Dead entries could have been removed or replaced since they were marked to be removed.
+        return sum(
+            (key_reference() is not None) and (value_reference() is not None)
+            for key_reference, value_reference in dict.items(self)
+        )
     
     # __lt__ -> same
     
diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index 776b7e3..907a585 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -307,12 +307,11 @@ class WeakKeyDictionary(dict):
     @has_docs
     def __len__(self):
         """Returns the length of the weak key dictionary."""
-        length = dict.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return dict.__len__(self)
         
-        return length
+        # Dead entries could have been removed or replaced since they were marked to be removed.
+        return sum((key_reference() is not None) for key_reference in dict.keys(self))
     
     # __lt__ -> same
     
diff --git a/scarletio/utils/weak_map.py b/scarletio/utils/weak_map.py
index f2a64cd..242a1c2 100755
--- a/scarletio/utils/weak_map.py
+++ b/scarletio/utils/weak_map.py
@@ -226,12 +226,11 @@ class WeakMap(dict):
     @has_docs
     def __len__(self):
         """Returns the length of the weak map."""
-        length = dict.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return dict.__len__(self)
         
-        return length
+        # Dead entries could have been removed or replaced since they were marked to be removed.
+        return sum((reference() is not None) for reference in dict.keys(self))
     
     # __lt__ -> same
     
diff --git a/scarletio/utils/weak_set.py b/scarletio/utils/weak_set.py
index 095da71..c4aca1c 100755
--- a/scarletio/utils/weak_set.py
+++ b/scarletio/utils/weak_set.py
@@ -427,12 +427,11 @@ class WeakSet(set):
     @has_docs
     def __len__(self):
         """Returns the length of the set."""
-        length = set.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return set.__len__(self)
         
-        return length
+        # Dead entries could have been removed or replaced since they were marked to be removed.
+        return sum((element_reference() is not None) for element_reference in set.__iter__(self))
     
     
     @has_docs
diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index 03b5cda..353b102 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -333,12 +333,11 @@ class WeakValueDictionary(dict):
     @has_docs
     def __len__(self):
         """Returns the length of the weak value dictionary."""
-        length = dict.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return dict.__len__(self)
         
-        return length
+        # Dead entries could have been removed or replaced since they were marked to be removed.
+        return sum((value_reference() is not None) for value_reference in dict.values(self))
     
     # __lt__ -> same
     
-- 
2.43.0


From a0dbcd83d55115a027bcbe4065507e978fc21615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 17/61] fix: removing the dead entries of weak containers after
 they were iterated

---
 scarletio/utils/hybrid_value_dictionary.py |  3 ++-
 scarletio/utils/weak_item_dictionary.py    | 13 +++++++++----
 scarletio/utils/weak_key_dictionary.py     |  2 +-
 scarletio/utils/weak_value_dictionary.py   |  3 ++-
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index f95fa58..24c1015 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -193,7 +193,8 @@ class HybridValueDictionary(dict):
             if (not value_weakreferable):
                 continue
             
-            if (value_or_reference is not value_reference):
+            # Skip if it was replaced since.
+            if (value_or_reference() is not None):
                 continue
             
             try:
diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index 5ab294e..c6e6a1a 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -211,10 +211,15 @@ class WeakItemDictionary(dict):
         self._pending_removals = None
         
         for key_reference in pending_removals:
-            try:
-                dict.__delitem__(self, key_reference)
-            except KeyError:
-                pass
+            value_reference = dict.get(self, key_reference, None)
+            if value_reference is None:
+                continue
+            
+            # Skip if it was replaced since.
+            if (key_reference() is not None) and (value_reference() is not None):
+                continue
+            
+            dict.__delitem__(self, key_reference)
     
     # __class__ -> same
     
diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index 907a585..65b89c1 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -218,7 +218,7 @@ class WeakKeyDictionary(dict):
             try:
                 dict.__delitem__(self, key_reference)
             except KeyError:
-                return
+                pass
     
     # __class__ -> same
     
diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index 353b102..ed9320a 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -228,7 +228,8 @@ class WeakValueDictionary(dict):
             except KeyError:
                 continue
             
-            if (actual_value_reference is not value_reference):
+            # Skip if it was replaced since.
+            if (actual_value_reference() is not None):
                 continue
             
             try:
-- 
2.43.0


From a770dbf2ce4f6d4b245017886e33786315c5986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 18/61] fix: weak item dictionaries showed dead entries while
 they were iterated

---
 scarletio/utils/weak_item_dictionary.py | 40 +++++++++++++++++++++----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index c6e6a1a..43e970d 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -1,6 +1,6 @@
 __all__ = ('WeakItemDictionary',)
 
-from .dict_iterator_bases import DictionaryItemIteratorBase, DictionaryValueIteratorBase
+from .dict_iterator_bases import DictionaryItemIteratorBase, DictionaryKeyIteratorBase, DictionaryValueIteratorBase
 from .dict_update_iterable_iterator import _dict_update_iterable_iterator
 from .docs import copy_docs, has_docs
 from .weak_core import KeyedReferer, WeakReferer, add_to_pending_removals
@@ -60,6 +60,29 @@ class _WeakItemDictionaryValueCallback:
                 pass
 
 
+class _WeakItemDictionaryKeyIterator(_WeakKeyDictionaryKeyIterator):
+    __slots__ = ()
+    
+    @copy_docs(DictionaryKeyIteratorBase.__iter__)
+    def __iter__(self):
+        parent = self._parent
+        parent._iterating += 1
+        
+        try:
+            for key_reference, value_reference in dict.items(parent):
+                key = key_reference()
+                if (key is None) or (value_reference() is None):
+                    add_to_pending_removals(parent, key_reference)
+                    continue
+                
+                yield key
+                continue
+        
+        finally:
+            parent._iterating -= 1
+            parent._commit_removals()
+
+
 class _WeakItemDictionaryValueIterator(DictionaryValueIteratorBase):
     __slots__ = ()
     
@@ -71,7 +94,7 @@ class _WeakItemDictionaryValueIterator(DictionaryValueIteratorBase):
         try:
             for value_reference in dict.values(parent):
                 value = value_reference()
-                if (value is None):
+                if (value is None) or (value_reference.key() is None):
                     add_to_pending_removals(parent, value_reference.key)
                     continue
                 
@@ -88,7 +111,7 @@ class _WeakItemDictionaryValueIterator(DictionaryValueIteratorBase):
         parent = self._parent
         for value_reference in dict.values(parent):
             value = value_reference()
-            if (value is None):
+            if (value is None) or (value_reference.key() is None):
                 add_to_pending_removals(parent, value_reference.key)
                 continue
             
@@ -332,7 +355,7 @@ class WeakItemDictionary(dict):
     @has_docs
     def __iter__(self):
         """Returns a ``_WeakItemDictionaryKeyIterator`` iterating over the weak item dictionary's keys."""
-        return iter(_WeakKeyDictionaryKeyIterator(self))
+        return iter(_WeakItemDictionaryKeyIterator(self))
     
     # __le__ -> same
     
@@ -437,6 +460,11 @@ class WeakItemDictionary(dict):
     def __setitem__(self, key, value):
         """Adds the given `key` - `value` pair to the weak item dictionary."""
         key_reference = WeakReferer(key, self._key_callback)
+        # Dictionaries keep their actual key, so the value has to refer to that.
+        actual_value_reference = dict.get(self, key_reference, None)
+        if (actual_value_reference is not None):
+            key_reference = actual_value_reference.key
+        
         value_reference = KeyedReferer(value, self._value_callback, key_reference)
         dict.__setitem__(self, key_reference, value_reference)
     
@@ -527,7 +555,7 @@ class WeakItemDictionary(dict):
             if self._iterating:
                 add_to_pending_removals(self, value_reference.key)
             else:
-                dict.__delitem__(self, key)
+                dict.__delitem__(self, value_reference.key)
         
         return default
     
@@ -553,7 +581,7 @@ class WeakItemDictionary(dict):
         -------
         key_iterator : ``_WeakKeyDictionaryKeyIterator``
         """
-        return _WeakKeyDictionaryKeyIterator(self)
+        return _WeakItemDictionaryKeyIterator(self)
     
     
     @has_docs
-- 
2.43.0


From 15d2f21aa51fc4574379f38321160493e3f2d6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 19/61] fix: in-place operations of a weak set with itself

---
 scarletio/utils/weak_set.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/scarletio/utils/weak_set.py b/scarletio/utils/weak_set.py
index c4aca1c..7b8e67f 100755
--- a/scarletio/utils/weak_set.py
+++ b/scarletio/utils/weak_set.py
@@ -313,8 +313,9 @@ class WeakSet(set):
     def __isub__(self, other):
         """Update the set, removing elements found in others."""
         if isinstance(other, type(self)):
-            for element_reference in set.__iter__(other):
-                set.discard(self, element_reference)
+            # `other` might be ourself.
+            for element in [*other]:
+                self.discard(element)
             
             return self
         
@@ -362,14 +363,10 @@ class WeakSet(set):
     def __ixor__(self, other):
         """Update the set, keeping only elements found in either set, but not in both."""
         if isinstance(other, type(self)):
-            for element_reference in set.__iter__(other):
-                element = element_reference()
-                if element is None:
-                    add_to_pending_removals(self, element_reference)
-                    continue
-                
+            # `other` might be ourself.
+            for element in [*other]:
                 try:
-                    set.remove(self, element_reference)
+                    self.remove(element)
                 except KeyError:
                     self.add(element)
             
@@ -761,8 +758,9 @@ class WeakSet(set):
             - If an element of `iterable` is now weakreferable.
         """
         if isinstance(iterable, type(self)):
-            for element_reference in set.__iter__(iterable):
-                set.discard(self, element_reference)
+            # `iterable` might be ourself.
+            for element in [*iterable]:
+                self.discard(element)
         
         elif is_iterable(iterable):
             for element in iterable:
@@ -1109,14 +1107,10 @@ class WeakSet(set):
             - If an element of `iterable` is now weakreferable.
         """
         if isinstance(iterable, type(self)):
-            for element_reference in set.__iter__(iterable):
-                element = element_reference()
-                if element is None:
-                    add_to_pending_removals(self, element_reference)
-                    continue
-                
+            # `iterable` might be ourself.
+            for element in [*iterable]:
                 try:
-                    set.remove(self, element_reference)
+                    self.remove(element)
                 except KeyError:
                     self.add(element)
             
-- 
2.43.0


From 9436026e7031bc6c93c4047e62f254c9fa613938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 20/61] fix: deleting a dead entry of a weak dictionary while
 it is iterated

---
 scarletio/utils/hybrid_value_dictionary.py | 10 +++++++++-
 scarletio/utils/weak_item_dictionary.py    |  9 ++++-----
 scarletio/utils/weak_value_dictionary.py   | 10 +++++++++-
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index 24c1015..7bc679d 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -225,7 +225,15 @@ class HybridValueDictionary(dict):
         return True
     
     # __delattr__ -> same
-    # __delitem__ -> same
+    
+    def __delitem__(self, key):
+        """Deletes the value of the hybrid value dictionary which matches the given key."""
+        # The value of the key might be already dead if we are being iterated.
+        if key not in self:
+            raise KeyError(key)
+        
+        dict.__delitem__(self, key)
+    
     # __dir__ -> same
     # __doc__ -> same
     
diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index 43e970d..2f88dcc 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -274,12 +274,11 @@ class WeakItemDictionary(dict):
     @has_docs
     def __delitem__(self, key):
         """Deletes the value of the weak item dictionary which matches the given key."""
-        try:
-            key = WeakReferer(key)
-        except TypeError:
-            raise KeyError(key) from None
+        # The value of the key might be already dead if we are being iterated.
+        if key not in self:
+            raise KeyError(key)
         
-        dict.__delitem__(self, key)
+        dict.__delitem__(self, WeakReferer(key))
     
     # __dir__ -> same
     # __doc__ -> same
diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index ed9320a..b3a0046 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -258,7 +258,15 @@ class WeakValueDictionary(dict):
         return False
     
     # __delattr__ -> same
-    # __delitem__ -> same
+    
+    def __delitem__(self, key):
+        """Deletes the value of the weak value dictionary which matches the given key."""
+        # The value of the key might be already dead if we are being iterated.
+        if key not in self:
+            raise KeyError(key)
+        
+        dict.__delitem__(self, key)
+    
     # __dir__ -> same
     # __doc__ -> same
     
-- 
2.43.0


From 47d811c681c640b5e1720fc8acd6532996c86537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:07 +0000
Subject: [PATCH 21/61] fix: copies of weak item dictionaries kept their dead
 entries

---
 scarletio/utils/weak_item_dictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index 2f88dcc..598c61f 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -510,8 +510,8 @@ class WeakItemDictionary(dict):
                 add_to_pending_removals(self, key_reference)
                 continue
             
-            key_reference = WeakReferer(key, self._key_callback)
-            value_reference = KeyedReferer(value, self._value_callback, key_reference)
+            key_reference = WeakReferer(key, new._key_callback)
+            value_reference = KeyedReferer(value, new._value_callback, key_reference)
             
             dict.__setitem__(new, key_reference, value_reference)
             continue
-- 
2.43.0


From f0a9a227c416cf6ec30b245da17d03d4f66660e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 22/61] fix: deduplicated zip names collided with an other
 file's name

---
 .../zip_streaming/name_deduplication.py       | 60 ++++++-------------
 1 file changed, 18 insertions(+), 42 deletions(-)

diff --git a/scarletio/streaming/zip_streaming/name_deduplication.py b/scarletio/streaming/zip_streaming/name_deduplication.py
index 58affd0..968f0eb 100755
--- a/scarletio/streaming/zip_streaming/name_deduplication.py
+++ b/scarletio/streaming/zip_streaming/name_deduplication.py
@@ -57,54 +57,30 @@ def name_deduplicator_default(regex_pattern, name_reconstructor):
     ------
     name : `str`
     """
-    collected = {}
+    taken_names = set()
+    counters = {}
     name = yield
     
     while True:
-        match = regex_pattern.fullmatch(name)
-        if match is None:
-            path = name
-            index = -1
-            extension = None
-        
-        else:
-            path, index, extension = match.groups()
-            if index is None:
-                index = -1
+        if name in taken_names:
+            match = regex_pattern.fullmatch(name)
+            if match is None:
+                path = name
+                extension = None
+            
             else:
-                index = int(index)
-        
-        key = (path, extension)
-        counter, taken_values = collected.get(key, (-1, None))
-        
-        if (index > counter) and ((taken_values is None) or (index not in taken_values)):
-            new_index = index
+                path, _, extension = match.groups()
             
-            if (taken_values is None):
-                taken_values = set()
+            key = (path, extension)
+            index = counters.get(key, 0)
             
-            taken_values.add(new_index)
-        
-        else:
-            new_index = counter + 1
-            if (taken_values is not None):
-                while True:
-                    try:
-                        taken_values.remove(new_index)
-                    except KeyError:
-                        break
-                    
-                    new_index += 1
-                    
-                    if not taken_values:
-                        taken_values = None
-                        break
+            while True:
+                name = name_reconstructor(path, index, extension)
+                index += 1
+                if name not in taken_names:
+                    break
             
-            counter = new_index
-        
-        collected[key] = (counter, taken_values)
-        
-        if (index != new_index):
-            name = name_reconstructor(path, new_index, extension)
+            counters[key] = index
         
+        taken_names.add(name)
         name = yield name
-- 
2.43.0


From ed7a35ce77ea3dc2d1e67d83d46af76d4ac5600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 23/61] fix: streaming zips of more than 65535 files

---
 scarletio/streaming/zip_streaming/zip_stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/streaming/zip_streaming/zip_stream.py b/scarletio/streaming/zip_streaming/zip_stream.py
index 3143a2c..d91775e 100755
--- a/scarletio/streaming/zip_streaming/zip_stream.py
+++ b/scarletio/streaming/zip_streaming/zip_stream.py
@@ -200,8 +200,8 @@ def _create_end_of_central_directory_record(files_count):
         END_OF_CENTRAL_DIRECTORY_RECORD_SIGNATURE,
         0,
         0,
-        files_count,
-        files_count,
+        min(files_count, 0xffff),
+        min(files_count, 0xffff),
         0xffffffff,
         0xffffffff,
         0,
-- 
2.43.0


From 5aa31746d36dafc60876ca83f3fcf8f46e72e4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 24/61] fix: dns names with pointer loops were parsed endlessly

---
 scarletio/dns_query/building_and_parsing.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/scarletio/dns_query/building_and_parsing.py b/scarletio/dns_query/building_and_parsing.py
index a9bfb29..9e03351 100755
--- a/scarletio/dns_query/building_and_parsing.py
+++ b/scarletio/dns_query/building_and_parsing.py
@@ -112,6 +112,9 @@ def _parse_labels(data, index):
     labels = None
     data_length = len(data)
     furthest_index = index
+    # Where the labels started before the last jump.
+    start_index = index
+    jumped = False
     
     while True:
         # Bound check index
@@ -125,7 +128,9 @@ def _parse_labels(data, index):
         
         label_length = data[index]
         index += 1
-        furthest_index = max(furthest_index, index)
+        if not jumped:
+            furthest_index = index
+        
         if label_length == 0:
             response_parsing_error = None
             break
@@ -170,17 +175,22 @@ def _parse_labels(data, index):
         
         addition = data[index]
         index += 1
-        furthest_index = max(furthest_index, index)
+        if not jumped:
+            furthest_index = index
+            jumped = True
+        
         index = ((label_length & 0x3f) << 8) | addition
         
-        # Only backwards jumps are allowed.
-        if index > furthest_index:
+        # Only backwards jumps are allowed. Jumping back to after where we started would jump here again.
+        if index >= start_index:
             response_parsing_error =  ResponseParsingError(
                 RESPONSE_PARSING_ERROR_CODE_LABEL_JUMP_FORWARD,
                 data,
                 (furthest_index, index),
             )
             break
+        
+        start_index = index
     
     if (response_parsing_error is not None):
         return (None, response_parsing_error)
-- 
2.43.0


From cff67f8cb7d00def654b4fcac35c1af61608c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 25/61] fix: naming dns labels that are not valid idna, pointer
 records with invalid data

---
 scarletio/dns_query/building_and_parsing.py | 2 ++
 scarletio/dns_query/helpers.py              | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/scarletio/dns_query/building_and_parsing.py b/scarletio/dns_query/building_and_parsing.py
index 9e03351..a2afeb1 100755
--- a/scarletio/dns_query/building_and_parsing.py
+++ b/scarletio/dns_query/building_and_parsing.py
@@ -492,6 +492,8 @@ def parse_domain_name_pointer_data(data):
         return None
     
     labels_and_furthest_index, response_parsing_error = _parse_labels(data, 0)
+    if (response_parsing_error is not None):
+        return None
     
     labels, furthest_index = labels_and_furthest_index
     if labels is None:
diff --git a/scarletio/dns_query/helpers.py b/scarletio/dns_query/helpers.py
index 82fd3f5..6866d96 100755
--- a/scarletio/dns_query/helpers.py
+++ b/scarletio/dns_query/helpers.py
@@ -189,7 +189,13 @@ def build_name_from_labels(labels):
         if index:
             characters.append('.')
         
-        for character in labels[index].decode('idna'):
+        label = labels[index]
+        try:
+            part = label.decode('idna')
+        except UnicodeError:
+            part = label.decode('latin-1')
+        
+        for character in part:
             if character in ('.', '\\', ';', '@', '$', '(', ')', '"'):
                 characters.append('\\')
                 characters.append(character)
-- 
2.43.0


From 6ebea2dfec1132c9f21eef6d11b8e2841ee0b9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:22 +0000
Subject: [PATCH 26/61] fix: compressed domain names of pointer records

---
 scarletio/dns_query/building_and_parsing.py | 41 ++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/scarletio/dns_query/building_and_parsing.py b/scarletio/dns_query/building_and_parsing.py
index a2afeb1..db048e8 100755
--- a/scarletio/dns_query/building_and_parsing.py
+++ b/scarletio/dns_query/building_and_parsing.py
@@ -2,7 +2,8 @@ __all__ = ()
 
 from .constants import (
     DATA_VERIFICATION_DESIRED_SHIFT, DATA_VERIFIED_SHIFT, OPERATION_CODE_QUERY_STANDARD, OPERATION_CODE_SHIFT,
-    RECURSION_AVAILABLE_SHIFT, RECURSION_DESIRED_SHIFT, RESPONSE_CODE_MASK, RESPONSE_CODE_SHIFT,
+    RECURSION_AVAILABLE_SHIFT, RECURSION_DESIRED_SHIFT, RESOURCE_RECORD_TYPE_DOMAIN_NAME_POINTER, RESPONSE_CODE_MASK,
+    RESPONSE_CODE_SHIFT,
     RESPONSE_PARSING_ERROR_CODE_HEADER_OUT_OF_BOUND, RESPONSE_PARSING_ERROR_CODE_LABEL_JUMP_FORWARD,
     RESPONSE_PARSING_ERROR_CODE_LABEL_JUMP_READ_OUT_OF_BOUND, RESPONSE_PARSING_ERROR_CODE_LABEL_LENGTH_INVALID_RANGE,
     RESPONSE_PARSING_ERROR_CODE_LABEL_LENGTH_READ_OUT_OF_BOUND, RESPONSE_PARSING_ERROR_CODE_LABEL_READ_END_OUT_OF_BOUND,
@@ -201,6 +202,41 @@ def _parse_labels(data, index):
     return (labels, furthest_index), None
 
 
+def _expand_domain_name(data, index, end, record_data):
+    """
+    Expands the domain name stored as the data of a resource record. It might jump to an earlier part of the response,
+    so it cannot be parsed alone.
+    
+    Parameters
+    ----------
+    data : `bytes`
+        The whole response.
+    
+    index : `int`
+        Index where the resource record's data starts.
+    
+    end : `int`
+        Index where the resource record's data ends.
+    
+    record_data : `bytes`
+        The resource record's data.
+    
+    Returns
+    -------
+    record_data : `bytes`
+        Returned as is if it is not a domain name.
+    """
+    labels_and_index, response_parsing_error = _parse_labels(data, index)
+    if (response_parsing_error is not None):
+        return record_data
+    
+    labels, index = labels_and_index
+    if (labels is None) or (index != end):
+        return record_data
+    
+    return b''.join([*(len(label).to_bytes(1, 'big') + label for label in labels), b'\x00'])
+
+
 def _parse_questions(data, index, count):
     """
     Parses labels from the given data.
@@ -330,6 +366,9 @@ def _parse_resource_records(data, index, count):
                 break
             
             record_data = data[index : end]
+            if resource_record_type == RESOURCE_RECORD_TYPE_DOMAIN_NAME_POINTER:
+                record_data = _expand_domain_name(data, index, end, record_data)
+            
             index = end
         
         if resource_records is None:
-- 
2.43.0


From 219941b0e1b36abd8a932beed034de23a9f145c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 27/61] fix: reading a stream whose pieces cut the boundary or
 the data to read

A boundary cut over pieces was returned with the data or missed, data which only looked like the beginning of a
boundary was dropped, and the offset of a piece read partly before was kept for the next piece.
---
 .../core/protocols_and_transports/protocol.py      | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index be0b7d1..e088df3 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -859,6 +859,7 @@ class ReadProtocolBase(AbstractProtocolBase):
             
             n -= (chunk_size - offset)
             del chunks[0]
+            self._offset = 0
             yield memoryview(chunk)[offset:]
         
         while True:
@@ -980,13 +981,15 @@ class ReadProtocolBase(AbstractProtocolBase):
                 offset, intersection_sizes = _finish_intersection_sizes(chunk, boundary, intersection_sizes)
                 # Found boundary in between?
                 if offset != -1:
+                    held_back_boundary_size = len(boundary) - offset
+                    
                     # Do not offset if offset if at the end of the chunk. Delete chunk instead.
                     if offset == len(chunk):
                         del chunks[0]
                         offset = 0
                     self._offset = offset
                     
-                    released, held_back = _get_released_from_held_back(held_back, len(boundary) - offset)
+                    released, held_back = _get_released_from_held_back(held_back, held_back_boundary_size)
                     if (released is not None):
                         for to_release in released:
                             yield to_release
@@ -1010,7 +1013,12 @@ class ReadProtocolBase(AbstractProtocolBase):
                         _continue_intersection_sizes(chunk, boundary, intersection_sizes),
                         _get_end_intersection_sizes(chunk, 0, boundary),
                     )
-                    released, held_back = _get_released_from_held_back(held_back, len(boundary))
+                    if intersection_sizes is None:
+                        # Release all.
+                        released = held_back
+                        held_back = None
+                    else:
+                        released, held_back = _get_released_from_held_back(held_back, intersection_sizes[0])
                     if (released is not None):
                         for to_release in released:
                             yield to_release
@@ -1037,7 +1045,7 @@ class ReadProtocolBase(AbstractProtocolBase):
             self._offset = 0
             if offset:
                 chunk = memoryview(chunk)[offset:]
-            intersection_sizes = _get_end_intersection_sizes(chunk, offset, boundary)
+            intersection_sizes = _get_end_intersection_sizes(chunk, 0, boundary)
             if (intersection_sizes is not None):
                 offset = len(chunk) - intersection_sizes[0]
                 held_back = [memoryview(chunk)[offset:]]
-- 
2.43.0


From 4f8a5c821c04fdc6d9ac471b86345b77255705ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 28/61] fix: draining of protocols

Pausing reading and writing shared one flag, so reading resumed writing, only one of the tasks waiting to drain was woken up
and draining after the connection was lost waited forever.
---
 .../core/protocols_and_transports/protocol.py | 32 ++++++++++++-------
 scarletio/web_common/http_protocol.py         |  1 +
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index e088df3..0a88184 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -5,7 +5,7 @@ from functools import partial as partial_func
 
 from ...utils import copy_docs, to_coroutine
 
-from ..traps import Future, Task, skip_ready_cycle
+from ..traps import Future, Task, shield, skip_ready_cycle
 
 from .abstract import AbstractProtocolBase
 from .payload_stream import PayloadStream
@@ -1218,9 +1218,12 @@ class ReadWriteProtocolBase(ReadProtocolBase):
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
     
     _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+        A future, what is used to block the writing tasks, till the writen data is drained.
+    
+    _writing_paused : `bool`
+        Whether the protocol's transport requested to stop writing. Defaults to `False`.
     """
-    __slots__ = ('_drain_waiter', )
+    __slots__ = ('_drain_waiter', '_writing_paused')
     
     def __new__(cls, loop):
         """
@@ -1234,18 +1237,19 @@ class ReadWriteProtocolBase(ReadProtocolBase):
         self = ReadProtocolBase.__new__(cls, loop)
         
         self._drain_waiter = None
+        self._writing_paused = False
         
         return self
     
     
     @copy_docs(AbstractProtocolBase.pause_writing)
     def pause_writing(self):
-        self._paused = True
+        self._writing_paused = True
     
     
     @copy_docs(AbstractProtocolBase.resume_writing)
     def resume_writing(self):
-        self._paused = False
+        self._writing_paused = False
         
         drain_waiter = self._drain_waiter
         if drain_waiter is None:
@@ -1261,12 +1265,16 @@ class ReadWriteProtocolBase(ReadProtocolBase):
         
         This method is a coroutine.
         """
-        if not self._paused:
+        if not self._writing_paused:
             return
         
-        drain_waiter = Future(self._loop)
-        self._drain_waiter = drain_waiter
-        await drain_waiter
+        drain_waiter = self._drain_waiter
+        if drain_waiter is None:
+            drain_waiter = Future(self._loop)
+            self._drain_waiter = drain_waiter
+        
+        # There can be more tasks waiting. Shield the waiter, so cancelling one of them does not affect the others.
+        await shield(drain_waiter, self._loop)
     
     
     @copy_docs(ReadProtocolBase.connection_lost)
@@ -1276,10 +1284,12 @@ class ReadWriteProtocolBase(ReadProtocolBase):
         else:
             self.set_exception(exception)
         
-        # wake up the writer if currently paused.
-        if not self._paused:
+        # wake up the writers if currently paused.
+        if not self._writing_paused:
             return
         
+        self._writing_paused = False
+        
         drain_waiter = self._drain_waiter
         if drain_waiter is None:
             return
diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 334031d..8ae3912 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -815,5 +815,6 @@ class HttpReadWriteProtocol(ReadWriteProtocolBase, HttpReadProtocol):
         new = HttpReadProtocol.isekai_into(self, other_class)
         
         new._drain_waiter = self._drain_waiter
+        new._writing_paused = self._writing_paused
         
         return new
-- 
2.43.0


From f5637d0561ee717e8e8cf11078968c7526d5100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 29/61] fix: socket transports closed or paused before reading
 starts

They started reading of a closed or paused socket, leaving its file descriptor registered. Writing end of file to a closed
transport raised attribute error.
---
 .../protocols_and_transports/transport_layer.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index b372a4d..2ba5258 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -347,6 +347,8 @@ class SocketTransportLayerBase(TransportLayerBase):
             If the connection was closed, then `exception` is given as `None`. This can happen at the case, when eof is
             received as well.
         """
+        self._connection_lost = True
+        
         try:
             protocol = self._protocol
             if (protocol is not None):
@@ -578,7 +580,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
         _set_nodelay(socket)
         
         # only start reading when connection_made() has been called
-        loop.call_soon(loop.add_reader, self._file_descriptor, self._read_ready)
+        loop.call_soon(self._add_reader)
         if (waiter is not None):
             # only wake up the waiter when connection_made() has been called
             loop.call_soon(type(waiter).set_result_if_pending, waiter, None)
@@ -633,7 +635,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
     
     @copy_docs(SocketTransportLayerBase.write_eof)
     def write_eof(self):
-        if self._at_eof:
+        if self._closing or self._at_eof:
             return
         
         self._at_eof = True
@@ -696,6 +698,17 @@ class SocketTransportLayer(SocketTransportLayerBase):
                 server._detach()
     
     
+    def _add_reader(self):
+        """
+        Starts reading after ``.connection_made`` of the protocol was called. Does nothing if the transport was closed or
+        its reading was paused meanwhile.
+        """
+        if self._closing or self._paused:
+            return
+        
+        self._loop.add_reader(self._file_descriptor, self._read_ready)
+    
+    
     @copy_docs(SocketTransportLayerBase._read_ready)
     def _read_ready(self):
         if self._connection_lost:
-- 
2.43.0


From b7a59d1c333b48292b5f1f0de4b48087d84ca780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 30/61] fix: pipe transports closed or paused while their
 protocol is told about the connection

---
 .../protocols_and_transports/unix_pipe_transport_layer.py  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py b/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
index 59e5e48..bf14b8d 100755
--- a/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
@@ -98,7 +98,10 @@ class UnixReadPipeTransportLayer(TransportLayerBase):
             await skip_ready_cycle()
             
             protocol.connection_made(self)
-            loop.add_reader(file_descriptor, self._read_ready)
+            
+            # The protocol might have closed or paused us.
+            if not (self._closing or self._paused):
+                loop.add_reader(file_descriptor, self._read_ready)
         
         except:
             self.close()
@@ -369,7 +372,7 @@ class UnixWritePipeTransportLayer(TransportLayerBase):
             
             # On AIX, the reader trick (to be notified when the read end of the  socket is closed) only works for
             # sockets. On other platforms it works for pipes and sockets.
-            if is_socket or (is_fifo and not IS_AIX):
+            if (is_socket or (is_fifo and not IS_AIX)) and (not self._closing):
                 loop.add_reader(file_descriptor, self._read_ready)
         except:
             self.close()
-- 
2.43.0


From 76197b158e60c7b0f849cdefdcf131c03da76a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 31/61] fix: waiting for datagrams of an address

---
 scarletio/core/protocols_and_transports/protocol.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index 0a88184..ce10986 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -1498,9 +1498,13 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
             waiter = Future(self._loop)
             waiters.append(waiter)
             
-            address, protocol = await waiter
-            if address == address:
-                return protocol
+            await waiter
+            
+            # We might have been woken up by an other address. Our one might have been received as well since then.
+            try:
+                return by_address[address]
+            except KeyError:
+                pass
             
             continue
     
-- 
2.43.0


From 05efd81a8910ce68569f6ad2e1ce84c9e14356e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 32/61] fix: lifetime, replacing and hosts of stored cookies

---
 scarletio/web_common/cookiejar.py | 76 +++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 20 deletions(-)

diff --git a/scarletio/web_common/cookiejar.py b/scarletio/web_common/cookiejar.py
index 1f7c1fd..8b4e6d6 100755
--- a/scarletio/web_common/cookiejar.py
+++ b/scarletio/web_common/cookiejar.py
@@ -4,7 +4,7 @@ import re
 from collections import defaultdict
 from datetime import datetime as DateTime, timezone as TimeZone
 from http.cookies import Morsel, SimpleCookie
-from math import ceil
+from time import time as time_now
 
 from ..core import LOOP_TIME
 
@@ -16,7 +16,7 @@ DATE_TOKENS_RP = re.compile(
     '[\x09\x20-\x2F\x3B-\x40\x5B-\x60\x7B-\x7E]*(?P<token>[\x00-\x08\x0A-\x1F\\d:a-zA-Z\x7F-\xFF]+)'
 )
 DATE_HMS_TIME_RP = re.compile('(\\d{1,2}):(\\d{1,2}):(\\d{1,2})')
-DATE_DAY_OF_MONTH_RP = re.compile('\\d{1,2}')
+DATE_DAY_OF_MONTH_RP = re.compile('\\d{1,2}(?!\\d)')
 DATE_YEAR_RP = re.compile('\\d{2,4}')
 MAX_TIME = 2051215261.0 # (2035-01-01)
 
@@ -99,7 +99,32 @@ def parse_cookie_date(date_str):
             or (day > 31) or (hour > 23) or (minute > 59) or (second > 59):
         return None
     
-    return DateTime(year, month, day, hour, minute, second, tzinfo = TimeZone.utc)
+    try:
+        return DateTime(year, month, day, hour, minute, second, tzinfo = TimeZone.utc)
+    except ValueError:
+        # The month is not that long.
+        return None
+
+
+def get_host_name(url):
+    """
+    Returns the host name of the url as it is compared to domains.
+    
+    Parameters
+    ----------
+    url : ``URL``
+        The url to get its host name of.
+    
+    Returns
+    -------
+    host_name : `None | str`
+    """
+    host_name = url.raw_host
+    if (host_name is not None):
+        # Host names are case insensitive and ip v6 addresses are put between brackets in urls.
+        host_name = host_name.lower().strip('[]')
+    
+    return host_name
 
 
 def do_domains_match(domain, host_name):
@@ -199,7 +224,7 @@ class CookieJar:
         self.cookies = defaultdict(SimpleCookie)
         self.host_only_cookies = set()
         self.unsafe = unsafe
-        self.next_expiration = ceil(LOOP_TIME())
+        self.next_expiration = MAX_TIME
         self.expirations = {}
     
     def __getstate__(self):
@@ -209,14 +234,15 @@ class CookieJar:
         cookies, host_only_cookies, unsafe = state
         
         self.cookies = defaultdict(SimpleCookie)
-        self.host_only_cookies = host_only_cookies
+        self.host_only_cookies = set()
         self.unsafe = False
-        self.next_expiration = 0.0
+        self.next_expiration = MAX_TIME
         self.expirations = {}
         
         for cookie in cookies:
             self.update_cookies(cookie)
         
+        self.host_only_cookies = host_only_cookies
         self.unsafe = unsafe
         self._do_expiration()
     
@@ -226,7 +252,7 @@ class CookieJar:
         """
         self.cookies.clear()
         self.host_only_cookies.clear()
-        self.next_expiration = ceil(LOOP_TIME())
+        self.next_expiration = MAX_TIME
         self.expirations.clear()
         
     def __iter__(self):
@@ -268,7 +294,7 @@ class CookieJar:
         cookies = self.cookies
         
         for key, when in expirations.items():
-            if when < now:
+            if when <= now:
                 cookies[key[0]].pop(key[1], None)
                 to_del.append(key)
                 self.host_only_cookies.discard(key)
@@ -278,7 +304,7 @@ class CookieJar:
         for key in to_del:
             del expirations[key]
         
-        self.next_expiration = ceil(next_expiration)
+        self.next_expiration = next_expiration
     
     def _expire_cookie(self, when, domain, name):
         """
@@ -286,8 +312,8 @@ class CookieJar:
         
         Parameters
         ----------
-        when : `int`
-            Posix timestamp of the cookie's expiration.
+        when : `float`
+            When the cookie expires in loop time.
         domain : `str`
             The cookie's domain.
         name : `str`
@@ -307,7 +333,7 @@ class CookieJar:
         response_url : ``URL`` = `URL()`, Optional
             Respective response's url.
         """
-        host_name = response_url.raw_host
+        host_name = get_host_name(response_url)
         
         if (not self.unsafe) and is_ip_address(host_name):
             # Don't accept cookies from IPs
@@ -323,12 +349,12 @@ class CookieJar:
             
             # ignore domains with trailing dots
             if domain.endswith('.'):
-                domain = ''
-                del cookie['domain']
+                domain = cookie['domain'] = ''
             
+            host_only = False
             if not domain and host_name is not None:
                 # Set the cookie's domain to the response host_name and set its host-only-flag
-                self.host_only_cookies.add((host_name, name))
+                host_only = True
                 domain = cookie['domain'] = host_name
             
             if domain.startswith('.'):
@@ -336,10 +362,20 @@ class CookieJar:
                 domain = domain[1:]
                 cookie['domain'] = domain
             
+            # Domains are case insensitive
+            domain = cookie['domain'] = domain.lower()
+            
             if host_name and (not do_domains_match(domain, host_name)):
                 # Setting cookies for different domains is not allowed
                 continue
             
+            # Nothing of the replaced cookie should apply to the new one.
+            self.expirations.pop((domain, name), None)
+            if host_only:
+                self.host_only_cookies.add((domain, name))
+            else:
+                self.host_only_cookies.discard((domain, name))
+            
             path = cookie['path']
             if not path or not path.startswith('/'):
                 # Set the cookie's path to the response path
@@ -357,17 +393,17 @@ class CookieJar:
                 try:
                     delta_seconds = int(max_age)
                     self._expire_cookie(LOOP_TIME() + delta_seconds, domain, name)
-                except ValueError:
-                    cookie['max-age'] = ''
+                except (OverflowError, ValueError):
+                    max_age = cookie['max-age'] = ''
             
-            else:
+            if not max_age:
                 expires = cookie['expires']
                 if (expires is not None):
                     expire_time = parse_cookie_date(expires)
                     if expire_time is None:
                         cookie['expires'] = ''
                     else:
-                        self._expire_cookie(expire_time.timestamp(), domain, name)
+                        self._expire_cookie(LOOP_TIME() + expire_time.timestamp() - time_now(), domain, name)
             
             self.cookies[domain][name] = cookie
         
@@ -390,7 +426,7 @@ class CookieJar:
         self._do_expiration()
         
         filtered = SimpleCookie()
-        host_name = request_url.raw_host
+        host_name = get_host_name(request_url)
         if host_name is None:
             host_name = ''
         
-- 
2.43.0


From 0c6a1d1a0cf9639cecac774ae6b3a425f6466dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 33/61] fix: payloads of requests, deflated, compressed until
 the end, with malformed chunk sizes or truncated compressed data

---
 scarletio/web_common/compressors.py   |  78 ++++++++++++++-
 scarletio/web_common/http_protocol.py | 132 ++++++++++++++++++++++++--
 2 files changed, 201 insertions(+), 9 deletions(-)

diff --git a/scarletio/web_common/compressors.py b/scarletio/web_common/compressors.py
index c2f26b1..0a35c06 100755
--- a/scarletio/web_common/compressors.py
+++ b/scarletio/web_common/compressors.py
@@ -46,6 +46,82 @@ ZLIB_COMPRESSOR = zlib.compressobj
 
 ZLIB_MAX_WBITS = zlib.MAX_WBITS
 
+class DeflateDecompressor:
+    """
+    Decompressor for `deflate` content encoding. It means deflated data in zlib format, but it is often sent without
+    zlib's header and checksum.
+    
+    Attributes
+    ----------
+    _decompressor : `None | ZLIB_DECOMPRESSOR`
+        The decompressor to use. Set when the first data is received.
+    """
+    __slots__ = ('_decompressor', )
+    
+    def __init__(self):
+        """
+        Creates a new deflate decompressor.
+        """
+        self._decompressor = None
+    
+    
+    def decompress(self, value):
+        """
+        Decompresses the given value.
+        
+        Parameters
+        ----------
+        value : `bytes | memoryview`
+            Value to decompress.
+        
+        Returns
+        -------
+        decompressed : `bytes`
+        """
+        decompressor = self._decompressor
+        if decompressor is None:
+            if not value:
+                return b''
+            
+            # Zlib's header starts with the compression method on the lower 4 bits, which is always 8 for deflate.
+            if value[0] & 0b00001111 == 8:
+                wbits = ZLIB_MAX_WBITS
+            else:
+                wbits = -ZLIB_MAX_WBITS
+            
+            decompressor = self._decompressor = ZLIB_DECOMPRESSOR(wbits = wbits)
+        
+        return decompressor.decompress(value)
+    
+    
+    def flush(self):
+        """
+        Flushes the decompressor.
+        
+        Returns
+        -------
+        decompressed : `bytes`
+        """
+        decompressor = self._decompressor
+        if decompressor is None:
+            return b''
+        
+        return decompressor.flush()
+    
+    
+    @property
+    def eof(self):
+        """
+        Returns whether the end of the compressed data was reached.
+        
+        Returns
+        -------
+        eof : `bool`
+        """
+        decompressor = self._decompressor
+        return (decompressor is not None) and decompressor.eof
+
+
 def get_decompressor_for(content_encoding):
     """
     Gets decompress object for the given content-encoding if applicable.
@@ -72,7 +148,7 @@ def get_decompressor_for(content_encoding):
         decompressor = ZLIB_DECOMPRESSOR(wbits = 16 + ZLIB_MAX_WBITS)
     
     elif content_encoding == 'deflate':
-        decompressor = ZLIB_DECOMPRESSOR(wbits = -ZLIB_MAX_WBITS)
+        decompressor = DeflateDecompressor()
     
     elif content_encoding == 'br':
         if BROTLI_DECOMPRESSOR is None:
diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 8ae3912..455e993 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -4,6 +4,7 @@ from base64 import b64decode as base64_decode
 from binascii import a2b_qp as qp_decode
 from functools import partial as partial_func
 from random import getrandbits
+from re import compile as re_compile
 from struct import Struct
 
 from ..core import ReadProtocolBase, ReadWriteProtocolBase
@@ -24,6 +25,8 @@ from .web_socket_frame import WebSocketFrame, apply_web_socket_mask
 PAYLOAD_ERROR_EOF_AT_HTTP_HEADER = 'EOF received meanwhile reading http headers.'
 
 
+CHUNK_SIZE_RP = re_compile(b'[0-9a-fA-F]+[ \t]*')
+
 UNPACK_LENGTH_2 = Struct('!H').unpack_from
 UNPACK_LENGTH_3 = Struct('!Q').unpack_from
 
@@ -32,6 +35,24 @@ PACK_LENGTH_2 = Struct('!BBH').pack
 PACK_LENGTH_3 = Struct('!BBQ').pack
 
 
+def check_decompression_finished(decompressor):
+    """
+    Checks whether the end of the compressed data was reached. Not all decompressor is able to tell it.
+    
+    Parameters
+    ----------
+    decompressor : `ZLIB_DECOMPRESSOR`, `BROTLI_DECOMPRESSOR`
+        Decompressor to check.
+    
+    Raises
+    ------
+    PayloadError
+        If the compressed data ended too early.
+    """
+    if not getattr(decompressor, 'eof', True):
+        raise PayloadError('Compressed data ended before it was finished.')
+
+
 class HttpReadProtocol(ReadProtocolBase):
     """
     Asynchronous read protocol implementation. Stuffed full of http read methods.
@@ -407,13 +428,13 @@ class HttpReadProtocol(ReadProtocolBase):
         """
         length = message.headers.get(CONTENT_LENGTH, None)
         if (length is not None):
-            if not length.isdigit():
+            if not (length.isascii() and length.isdigit()):
                 raise PayloadError(f'{CONTENT_LENGTH} must be a non negative int, got: {length!r}.')
             
             length = int(length)
         
         if (not message.upgraded):
-            if should_status_code_have_empty_payload(message.status):
+            if isinstance(message, RawResponseMessage) and should_status_code_have_empty_payload(message.status):
                 return None
             
             if message.chunked:
@@ -451,7 +472,11 @@ class HttpReadProtocol(ReadProtocolBase):
                 
                 return partial_func(self._read_chunked_encoded, decompressor)
             
-            return self._read_until_eof
+            decompressor = get_decompressor_for(message.encoding)
+            if decompressor is None:
+                return self._read_until_eof
+            
+            return partial_func(self._read_until_eof_encoded, decompressor)
         
         return None
     
@@ -481,12 +506,13 @@ class HttpReadProtocol(ReadProtocolBase):
             if index != -1:
                 line = line[:index]
             
-            try:
-                length = int(line, 16)
-            except ValueError:
+            # `int` would accept signs, prefixes and separators as well.
+            if CHUNK_SIZE_RP.fullmatch(line) is None:
                 raise PayloadError(
                     f'Not hexadecimal chunk size: {line!r}.'
-                ) from None
+                )
+            
+            length = int(line, 16)
             
             if length == 0:
                 end = await self._read_exactly_as_one(2)
@@ -575,6 +601,8 @@ class HttpReadProtocol(ReadProtocolBase):
         
         if chunk:
             payload_stream.add_received_chunk(chunk)
+        
+        check_decompression_finished(decompressor)
     
     
     async def _read_chunked_encoded(self, decompressor, payload_stream):
@@ -605,7 +633,11 @@ class HttpReadProtocol(ReadProtocolBase):
             - Chunk not ends with CRLF.
             - Cannot decompress a chunk.
         """
+        received = False
+        
         async for chunk in self._read_chunked_by_chunk():
+            received = True
+            
             try:
                 chunk = decompressor.decompress(chunk)
             except COMPRESSION_ERRORS:
@@ -613,6 +645,8 @@ class HttpReadProtocol(ReadProtocolBase):
             
             payload_stream.add_received_chunk(chunk)
         
+        if not received:
+            return
         
         # Flush decompressor at the end in case it is required.
         try:
@@ -622,6 +656,88 @@ class HttpReadProtocol(ReadProtocolBase):
         
         if chunk:
             payload_stream.add_received_chunk(chunk)
+        
+        check_decompression_finished(decompressor)
+    
+    
+    async def _read_until_eof_by_chunk(self):
+        """
+        Reads the payload stream until eof by chunk and yields it back. Used by other payload readers.
+        
+        This method is a coroutine generator.
+        
+        Yields
+        -------
+        chunk : `bytes | memoryview`
+        """
+        chunks = self._chunks
+        
+        while True:
+            if chunks:
+                chunk = chunks[0]
+                offset = self._offset
+                if offset:
+                    chunk = memoryview(chunk)[offset:]
+                    self._offset = 0
+            
+            else:
+                if self._at_eof:
+                    return
+                
+                try:
+                    chunk = await self._wait_for_data()
+                except EOFError:
+                    return
+            
+            del chunks[0]
+            yield chunk
+    
+    
+    async def _read_until_eof_encoded(self, decompressor, payload_stream):
+        """
+        Payload reader task, that reads the protocol until eof and decompresses the received data with the given
+        decompress object.
+        
+        This method is a coroutine.
+        
+        Parameters
+        ----------
+        decompressor : `ZLIB_DECOMPRESSOR`, `BROTLI_DECOMPRESSOR`
+            Decompressor used to decompress the data after receiving it.
+        
+        payload_stream : ``PayloadStream``
+            Payload buffer to read into.
+        
+        Raises
+        ------
+        PayloadError
+            Cannot decompress a chunk.
+        """
+        received = False
+        
+        async for chunk in self._read_until_eof_by_chunk():
+            received = True
+            
+            try:
+                chunk = decompressor.decompress(chunk)
+            except COMPRESSION_ERRORS:
+                raise PayloadError('Cannot decompress chunk.') from None
+            
+            payload_stream.add_received_chunk(chunk)
+        
+        if not received:
+            return
+        
+        # Flush decompressor at the end in case it is required.
+        try:
+            chunk = decompressor.flush()
+        except COMPRESSION_ERRORS:
+            raise PayloadError('Cannot decompress chunk.') from None
+        
+        if chunk:
+            payload_stream.add_received_chunk(chunk)
+        
+        check_decompression_finished(decompressor)
     
     
     def isekai_into(self, other_class):
@@ -711,7 +827,7 @@ class HttpReadWriteProtocol(ReadWriteProtocolBase, HttpReadProtocol):
         if transport is None:
             raise RuntimeError(f'Protocol has no attached transport; self = {self!r}.')
         
-        result = [f'{method} {path} HTTP/{version.major}.{version.major}\r\n']
+        result = [f'{method} {path} HTTP/{version.major}.{version.minor}\r\n']
         extend = result.extend
         for k, v in headers.items():
             extend((k, ': ', v, '\r\n'))
-- 
2.43.0


From cbb646e00d6bbcb232b13668a73f5a038f45676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:48 +0000
Subject: [PATCH 34/61] fix: connections are reusable when the payload is
 received separately from its header

---
 .../core/protocols_and_transports/protocol.py | 70 ++++++++++---------
 1 file changed, 37 insertions(+), 33 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index ce10986..f4944ea 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -493,44 +493,50 @@ class ReadProtocolBase(AbstractProtocolBase):
             chunks = self._chunks
             chunks.append(data)
         else:
-            while True:
+            try:
+                payload_reader.send(data)
+            
+            except StopIteration:
+                self._pop_payload_stream().set_done_success()
+            
+            except EOFError as exception:
+                new_exception = ConnectionError('Connection closed unexpectedly with EOF.')
+                new_exception.__cause__ = exception
                 try:
-                    payload_reader.send(data)
+                    self._pop_payload_stream().set_done_exception(new_exception)
+                finally:
+                    new_exception = None
             
-                except StopIteration:
-                    self._payload_stream.set_done_success()
-                
-                except EOFError as exception:
-                    new_exception = ConnectionError('Connection closed unexpectedly with EOF.')
-                    new_exception.__cause__ = exception
-                    try:
-                        self._payload_stream.set_done_exception(new_exception)
-                    finally:
-                        new_exception = None
-                
-                except GeneratorExit as exception:
-                    new_exception = ConnectionError('Payload reader destroyed.')
-                    new_exception.__cause__ = exception
-                    try:
-                        self._payload_stream.set_done_exception(new_exception)
-                    finally:
-                        new_exception = None
-                
-                except BaseException as exception:
-                    self._payload_stream.set_done_exception(exception)
-                
-                else:
-                    break
-                
-                # Clean these up when an exception occurs.
-                self._payload_reader = None
-                self._payload_stream = None
-                break
+            except GeneratorExit as exception:
+                new_exception = ConnectionError('Payload reader destroyed.')
+                new_exception.__cause__ = exception
+                try:
+                    self._pop_payload_stream().set_done_exception(new_exception)
+                finally:
+                    new_exception = None
+            
+            except BaseException as exception:
+                self._pop_payload_stream().set_done_exception(exception)
         
         # Pause if buffer is too big
         self._pause_reading()
     
     
+    def _pop_payload_stream(self):
+        """
+        Called when the payload reader is finished. Unsets both the payload reader and the payload stream before the
+        stream's callbacks would run, so they already see the protocol as available.
+        
+        Returns
+        -------
+        payload_stream : ``PayloadStream``
+        """
+        payload_stream = self._payload_stream
+        self._payload_reader = None
+        self._payload_stream = None
+        return payload_stream
+    
+    
     def _pause_reading(self):
         """
         Called when the protocol should consider pausing reading of its transport.
@@ -919,8 +925,6 @@ class ReadProtocolBase(AbstractProtocolBase):
         except EOFError:
             if not allow_eof:
                 raise
-        
-        payload_stream.set_done_success()
     
     
     async def _read_exactly_as_one(self, n):
-- 
2.43.0


From 1f6d0d1d1ca730e5f5a5517594b25f4b02405945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 35/61] fix: connections closed by the other side are not
 healthy

---
 scarletio/web_common/http_protocol.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 455e993..ebe4f46 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -105,7 +105,11 @@ class HttpReadProtocol(ReadProtocolBase):
         if (self._exception is not None):
             return True
         
-        if (not self._at_eof) and (self._offset or self._chunks):
+        # The other side closed the connection, or we gave up reading its payload.
+        if self._at_eof:
+            return True
+        
+        if self._offset or self._chunks:
             return True
         
         return False
-- 
2.43.0


From 9a6c063c508336f50693c7f64f3335c456785cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 36/61] fix: expired idle connections are closed when they
 expire

---
 scarletio/http_client/connector_base.py  | 10 ++++++++--
 scarletio/http_client/protocol_basket.py |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/scarletio/http_client/connector_base.py b/scarletio/http_client/connector_base.py
index 8641dfd..8623cd4 100755
--- a/scarletio/http_client/connector_base.py
+++ b/scarletio/http_client/connector_base.py
@@ -303,8 +303,14 @@ class ConnectorBase(RichAttributeErrorBaseType):
         
         self.add_available_protocol(key, protocol, keep_alive_timeout, performed_requests)
         
-        if self.clean_up_handle is None:
-            self.clean_up_handle = self.loop.call_after_weak(keep_alive_timeout, self._clean_up)
+        clean_up_handle = self.clean_up_handle
+        if (clean_up_handle is not None):
+            if clean_up_handle.when <= LOOP_TIME() + keep_alive_timeout:
+                return
+            
+            clean_up_handle.cancel()
+        
+        self.clean_up_handle = self.loop.call_after_weak(keep_alive_timeout, self._clean_up)
     
     
     def get_closest_expiration(self):
diff --git a/scarletio/http_client/protocol_basket.py b/scarletio/http_client/protocol_basket.py
index 2bf922c..8443939 100755
--- a/scarletio/http_client/protocol_basket.py
+++ b/scarletio/http_client/protocol_basket.py
@@ -108,6 +108,7 @@ class ProtocolBasket(RichAttributeErrorBaseType):
             del available[index]
             
             transport = protocol.get_transport()
+            protocol.close()
             if self.connection_key.secure and (transport is not None):
                 transport.abort()
         
-- 
2.43.0


From c287663531b39e0387cd9932c3a4ac7a4f28cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 37/61] fix: connections which cannot be used for http anymore
 are not reused

---
 .../protocols_and_transports/payload_stream.py | 11 +++++++++++
 scarletio/http_client/client_response.py       | 18 +++++++++++++++++-
 scarletio/web_common/http_message.py           |  9 +++++++--
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/payload_stream.py b/scarletio/core/protocols_and_transports/payload_stream.py
index a3ea9c2..39f0dcd 100755
--- a/scarletio/core/protocols_and_transports/payload_stream.py
+++ b/scarletio/core/protocols_and_transports/payload_stream.py
@@ -370,6 +370,17 @@ class PayloadStream(RichAttributeErrorBaseType):
         return True if self._flags & STREAM_FLAG_DONE_ABORTED else False
     
     
+    def is_success(self):
+        """
+        Returns whether the whole payload was successfully received.
+        
+        Returns
+        -------
+        is_success : `bool`
+        """
+        return True if self._flags & STREAM_FLAG_DONE_SUCCESS else False
+    
+    
     def _check_raise_flags(self):
         """
         Checks the raise flags of the payload reader. Raises if applicable.
diff --git a/scarletio/http_client/client_response.py b/scarletio/http_client/client_response.py
index 685e510..c21212e 100755
--- a/scarletio/http_client/client_response.py
+++ b/scarletio/http_client/client_response.py
@@ -238,7 +238,13 @@ class ClientResponse(RichAttributeErrorBaseType):
                 return
             
             self._released = True
-            self._release_connection()
+            
+            # If the payload could not be read, we do not know where the next response would start.
+            if (payload_stream is not None) and (not payload_stream.is_success()):
+                self.connection = None
+                connection.close()
+            else:
+                self._release_connection()
         
         self.closed = True
         self._clean_up_writer()
@@ -255,8 +261,18 @@ class ClientResponse(RichAttributeErrorBaseType):
             return
         
         raw_message = self.raw_message
+        write_body_task = self.write_body_task
         if raw_message is None:
             keep_alive = None
+        
+        # If we switched protocols, it cannot be used for http anymore.
+        elif raw_message.upgraded:
+            keep_alive = None
+        
+        # If the request is not fully written yet, nothing else can be written after it.
+        elif (write_body_task is not None) and (not write_body_task.is_done()):
+            keep_alive = None
+        
         else:
             keep_alive = raw_message.keep_alive
         
diff --git a/scarletio/web_common/http_message.py b/scarletio/web_common/http_message.py
index e6a0cc2..d4341d7 100755
--- a/scarletio/web_common/http_message.py
+++ b/scarletio/web_common/http_message.py
@@ -154,8 +154,13 @@ class RawMessage(RichAttributeErrorBaseType):
             return True if cache_flags & CACHE_FLAG_UPGRADE_VALUE else False
         
         headers = self.headers
+        # A response upgrades only if it says that it is switching protocols. With an other status it just advertises that
+        # it could.
+        if getattr(self, 'status', 101) != 101:
+            value = False
+        
         # Also require the `UPGRADE` header to be non-empty.
-        if not headers.get(UPGRADE, ''):
+        elif not headers.get(UPGRADE, ''):
             value = False
         
         else:
@@ -164,7 +169,7 @@ class RawMessage(RichAttributeErrorBaseType):
             except KeyError:
                 value = False
             else:
-                value = (connection.casefold() == 'upgrade')
+                value = any(option.strip().casefold() == 'upgrade' for option in connection.split(','))
                 if value:
                     cache_flags |= CACHE_FLAG_UPGRADE_VALUE
                 else:
-- 
2.43.0


From 829fbd2dc51fbcb6085d18614090d24bde68d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 38/61] fix: percent encoded bytes with a digit of 8 or 9 are
 unquoted wrong

---
 scarletio/web_common/quoting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/quoting.py b/scarletio/web_common/quoting.py
index d019b90..8c6c3ba 100755
--- a/scarletio/web_common/quoting.py
+++ b/scarletio/web_common/quoting.py
@@ -46,7 +46,7 @@ def _base_16_char_to_int(char):
     -------
     value : `int`
     """
-    value = char & 0x7
+    value = char & 0xf
     if char >= b'0'[0] and char <= b'9'[0]:
         pass
     elif (char >= b'a'[0] and char <= b'f'[0]) or (char >= b'A'[0] and char <= b'F'[0]):
-- 
2.43.0


From 98d642627cc0a27e6d6ec809b54436da74908dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:02 +0000
Subject: [PATCH 39/61] fix: percent encoded bytes which are not valid utf8
 spoil the text around them and plus signs are lost outside of queries

---
 scarletio/web_common/quoting.py       | 83 ++++++++++++++-------------
 scarletio/web_common/url/url_query.py |  2 +-
 2 files changed, 43 insertions(+), 42 deletions(-)

diff --git a/scarletio/web_common/quoting.py b/scarletio/web_common/quoting.py
index 8c6c3ba..3326a4b 100755
--- a/scarletio/web_common/quoting.py
+++ b/scarletio/web_common/quoting.py
@@ -155,6 +155,42 @@ def quote(value, safe = None, protected = None, query_string = False):
     return result.decode('ascii')
 
 
+def _iter_unquote_percentages(percentages, unsafe, query_string):
+    """
+    Iterates over the characters represented by a continuous sequence of percent encoded bytes.
+    
+    This function is an iterable generator.
+    
+    Parameters
+    ----------
+    percentages : `bytearray`
+        The bytes of the sequence.
+    
+    unsafe : `None | frozenset<str>`
+        Additional not percentage encoding safe characters.
+    
+    query_string : `bool`
+        Whether the value is a query string value.
+    
+    Yields
+    ------
+    part : `str`
+    """
+    for char in percentages.decode('utf8', 'surrogateescape'):
+        # Bytes that are not valid utf8 stay quoted.
+        if char >= '\udc80' and char <= '\udcff':
+            yield f'%{ord(char) - 0xdc00:02X}'
+        
+        elif query_string and (char in QUERY_STRING_NOT_SAFE):
+            yield quote(char, query_string = True)
+        
+        elif (unsafe is not None) and (char in unsafe):
+            yield quote(char)
+        
+        else:
+            yield char
+
+
 def unquote(value, unsafe = None, query_string = False):
     """
     Http unquotes the given `value`.
@@ -194,7 +230,6 @@ def unquote(value, unsafe = None, query_string = False):
     
     percentages = None
     result = []
-    joined = -1
     
     if (unsafe is not None):
         try:
@@ -204,21 +239,6 @@ def unquote(value, unsafe = None, query_string = False):
     
     iterator = iter(value)
     for char in iterator:
-        if (percentages is not None):
-            try:
-                unquoted = percentages.decode('utf8')
-            except UnicodeDecodeError:
-                pass
-            else:
-                if query_string and (unquoted in QUERY_STRING_NOT_SAFE):
-                    result.append(quote(unquoted, query_string = True))
-                elif (unsafe is not None) and (unquoted in unsafe):
-                    result.append(quote(unquoted))
-                else:
-                    result.append(unquoted)
-                
-                percentages = None
-        
         if char == '%':
             try:
                 char_0 = next(iterator)
@@ -226,21 +246,17 @@ def unquote(value, unsafe = None, query_string = False):
             except StopIteration:
                 break
             
-            joined = (_base_16_char_to_int(ord(char_0)) << 4) | _base_16_char_to_int(ord(char_1))
-            
             if (percentages is None):
                 percentages = bytearray()
             
-            percentages.append(joined)
+            percentages.append((_base_16_char_to_int(ord(char_0)) << 4) | _base_16_char_to_int(ord(char_1)))
             continue
         
-        if (percentages is not None) and (joined != -1):
-            result.append('%')
-            result.append(char_0)
-            result.append(char_1)
-            joined = -1
+        if (percentages is not None):
+            result.extend(_iter_unquote_percentages(percentages, unsafe, query_string))
+            percentages = None
         
-        if char == '+':
+        if query_string and (char == '+'):
             if (unsafe is None) or (char not in unsafe):
                 char = ' '
             
@@ -255,22 +271,7 @@ def unquote(value, unsafe = None, query_string = False):
         
         result.append(char)
     
-    
     if (percentages is not None):
-        try:
-            unquoted = percentages.decode('utf8')
-        except UnicodeDecodeError:
-            if (joined != -1):
-                result.append('%')
-                result.append(char_0)
-                result.append(char_1)
-        
-        else:
-            if query_string and (unquoted in QUERY_STRING_NOT_SAFE):
-                result.append(quote(unquoted, query_string = True))
-            elif (unsafe is not None) and (unquoted in unsafe):
-                result.append(quote(unquoted))
-            else:
-                result.append(unquoted)
+        result.extend(_iter_unquote_percentages(percentages, unsafe, query_string))
     
     return ''.join(result)
diff --git a/scarletio/web_common/url/url_query.py b/scarletio/web_common/url/url_query.py
index 307b091..d9c973a 100755
--- a/scarletio/web_common/url/url_query.py
+++ b/scarletio/web_common/url/url_query.py
@@ -12,7 +12,7 @@ from .url_part_base_parsed import URLPartBaseParsed
 
 
 encode = lambda value: quote(value, safe = '/?:@=', query_string = True)
-decode = unquote
+decode = lambda value: unquote(None if value is None else value.replace('+', ' '))
 
 
 def parse_query(query_string, encoded):
-- 
2.43.0


From 6d7bf64dacce652a932fbcfedf33a98f64898a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:12 +0000
Subject: [PATCH 40/61] fix: equality signs in the keys of queries are not
 quoted

---
 scarletio/web_common/url/url_query.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/url/url_query.py b/scarletio/web_common/url/url_query.py
index d9c973a..a73d48f 100755
--- a/scarletio/web_common/url/url_query.py
+++ b/scarletio/web_common/url/url_query.py
@@ -12,6 +12,7 @@ from .url_part_base_parsed import URLPartBaseParsed
 
 
 encode = lambda value: quote(value, safe = '/?:@=', query_string = True)
+encode_key = lambda value: quote(value, safe = '/?:@', query_string = True)
 decode = lambda value: unquote(None if value is None else value.replace('+', ' '))
 
 
@@ -293,7 +294,7 @@ def serialize_query(query, encoded):
     # Sort the keys to always get the same output.
     for query_key in sorted(query.keys()):
         if encoded:
-            query_key_processed = encode(query_key)
+            query_key_processed = encode_key(query_key)
         else:
             query_key_processed = query_key
         
-- 
2.43.0


From b187837121cce3b3e17055fc042bd83006a0f0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:22 +0000
Subject: [PATCH 41/61] fix: urls with a port of one digit are read as ones
 with a path

---
 scarletio/web_common/url/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/url/constants.py b/scarletio/web_common/url/constants.py
index 9f857fe..e7d437f 100755
--- a/scarletio/web_common/url/constants.py
+++ b/scarletio/web_common/url/constants.py
@@ -80,7 +80,7 @@ URL_RP = re_compile(
     f'{HOST_RP.pattern!s}'
     ')'
     # port number
-    '(?::(\\d{2,5}))?'
+    '(?::(\\d{1,5}))?'
     ')?'
     # resource path
     '(/[-a-z\u00a1-\uffff\U00010000-\U0010ffff0-9._~%!$&\'()*+,;=:@/]*)?'
-- 
2.43.0


From d059b8e45aa77aee16daca41e507176a899a2ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:42 +0000
Subject: [PATCH 42/61] fix: URL.with_name keeps the query and the fragment and
 URL.parent keeps the fragment

---
 scarletio/web_common/url/url.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scarletio/web_common/url/url.py b/scarletio/web_common/url/url.py
index e969ba9..5c7649c 100755
--- a/scarletio/web_common/url/url.py
+++ b/scarletio/web_common/url/url.py
@@ -1059,7 +1059,7 @@ class URL(RichAttributeErrorBaseType):
         # Construct
         new = object.__new__(type(self))
         new._cache = None
-        new._fragment = self._fragment
+        new._fragment = None
         new._host = self._host
         new._path = path
         new._port = self._port
@@ -1554,11 +1554,11 @@ class URL(RichAttributeErrorBaseType):
         # Construct
         new = object.__new__(type(self))
         new._cache = None
-        new._fragment = self._fragment
+        new._fragment = None
         new._host = self._host
         new._path = path
         new._port = self._port
-        new._query = self._query
+        new._query = None
         new._scheme = self._scheme
         new._user = self._user
         return new
-- 
2.43.0


From 6efc3ee8bea3f401921accc82f46ccffed3338a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:19 +0000
Subject: [PATCH 43/61] fix: quoted slashes within the segments of a path are
 lost

---
 scarletio/web_common/url/url.py      | 8 ++++----
 scarletio/web_common/url/url_path.py | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/scarletio/web_common/url/url.py b/scarletio/web_common/url/url.py
index 5c7649c..cd91153 100755
--- a/scarletio/web_common/url/url.py
+++ b/scarletio/web_common/url/url.py
@@ -548,9 +548,9 @@ class URL(RichAttributeErrorBaseType):
             split = path.parsed
         
         if split is None:
-            split = [name]
+            split = [*name.split('/')]
         else:
-            split = [*split, name]
+            split = [*split, *name.split('/')]
         
         split = normalize_path_parts(split)
         if split is None:
@@ -1537,10 +1537,10 @@ class URL(RichAttributeErrorBaseType):
             path_parts_length = len(path_parts)
         
         if path_parts_length <= 1:
-            path_parts = [name]
+            path_parts = [*name.split('/')]
         
         else:
-            path_parts = [*islice(path_parts, 0, path_parts_length - 1), name]
+            path_parts = [*islice(path_parts, 0, path_parts_length - 1), *name.split('/')]
         
         path_parts = normalize_path_parts(path_parts)
         if (path_parts is not None):
diff --git a/scarletio/web_common/url/url_path.py b/scarletio/web_common/url/url_path.py
index 36ac192..2ddbe54 100755
--- a/scarletio/web_common/url/url_path.py
+++ b/scarletio/web_common/url/url_path.py
@@ -8,6 +8,7 @@ from .url_part_base_parsed import URLPartBaseParsed
 
 
 encode = lambda value: quote(value, safe = '@:', protected = '/')
+encode_part = lambda value: quote(value, safe = '@:')
 decode = unquote
 
 
@@ -138,7 +139,7 @@ class URLPath(URLPartBaseParsed):
             else:
                 for part in value:
                     if encoded:
-                        part = encode(part)
+                        part = encode_part(part)
                 
                     built.append('/')
                     built.append(part)
-- 
2.43.0


From f2f19e46e318a8c52441b421b60f98df105874ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:34 +0000
Subject: [PATCH 44/61] fix: AttributeError is raised instead of
 ConnectionError when redirects are refused

---
 scarletio/http_client/http_client.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/scarletio/http_client/http_client.py b/scarletio/http_client/http_client.py
index eb39a7e..d0faea7 100755
--- a/scarletio/http_client/http_client.py
+++ b/scarletio/http_client/http_client.py
@@ -213,6 +213,7 @@ class HTTPClient(RichAttributeErrorBaseType):
         headers = IgnoreCaseMultiValueDictionary(headers)
         
         history = []
+        request_info = None
         url = URL(url)
         
         with Timeout(self.loop, REQUEST_TIMEOUT_DEFAULT):
@@ -234,6 +235,9 @@ class HTTPClient(RichAttributeErrorBaseType):
                     None,
                 )
                 
+                if request_info is None:
+                    request_info = request.request_info
+                
                 connection = await self.connector.connect(request)
                 
                 set_tcp_nodelay(connection.get_transport(), True)
@@ -251,7 +255,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                     history.append(response)
                     if not redirects:
                         response.close()
-                        raise ConnectionError('Too many redirects', history[0].request_info, tuple(history))
+                        raise ConnectionError('Too many redirects', request_info, tuple(history))
                     
                     if (
                         (response.status == 303 and response.method != METHOD_HEAD)
@@ -279,7 +283,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                         response.close()
                         raise ConnectionError(
                             f'Can redirect only to http or https, got {scheme!r}',
-                            history[0].request_info,
+                            request_info,
                             tuple(history),
                         )
                     
@@ -475,6 +479,7 @@ class HTTPClient(RichAttributeErrorBaseType):
             )
         
         history = []
+        request_info = None
         url = URL(url)
         
         with Timeout(self.loop, timeout):
@@ -496,6 +501,9 @@ class HTTPClient(RichAttributeErrorBaseType):
                     ssl_fingerprint,
                 )
                 
+                if request_info is None:
+                    request_info = request.request_info
+                
                 connection = await self.connector.connect(request)
                 
                 set_tcp_nodelay(connection.get_transport(), True)
@@ -513,7 +521,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                     history.append(response)
                     if not redirects:
                         response.close()
-                        raise ConnectionError('Too many redirects', history[0].request_info, tuple(history))
+                        raise ConnectionError('Too many redirects', request_info, tuple(history))
                     
                     # For 301 and 302, mimic IE behaviour, now changed in RFC.
                     if (
@@ -541,7 +549,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                         response.close()
                         raise ConnectionError(
                             f'Can redirect only to http or https, got {scheme!r}',
-                            history[0].request_info,
+                            request_info,
                             tuple(history),
                         )
                     
-- 
2.43.0


From 9d4b9a129c44ebce70945bd713f7e50e97ab7e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:57 +0000
Subject: [PATCH 45/61] fix: redirects to relative or percent encoded locations
 are not followed

---
 scarletio/http_client/http_client.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/scarletio/http_client/http_client.py b/scarletio/http_client/http_client.py
index d0faea7..28d365a 100755
--- a/scarletio/http_client/http_client.py
+++ b/scarletio/http_client/http_client.py
@@ -1,5 +1,6 @@
 __all__ = ('HTTPClient', )
 
+from urllib.parse import urljoin
 from warnings import warn
 
 from ..utils import IgnoreCaseMultiValueDictionary, RichAttributeErrorBaseType, export
@@ -276,10 +277,10 @@ class HTTPClient(RichAttributeErrorBaseType):
                     
                     response.release()
                     
-                    redirect_url = URL(redirect_url)
+                    redirect_url = URL(urljoin(url.value_encoded, redirect_url), encoded = True)
                     
                     scheme = redirect_url.scheme
-                    if scheme not in ('http', 'https', ''):
+                    if scheme not in ('http', 'https'):
                         response.close()
                         raise ConnectionError(
                             f'Can redirect only to http or https, got {scheme!r}',
@@ -287,9 +288,6 @@ class HTTPClient(RichAttributeErrorBaseType):
                             tuple(history),
                         )
                     
-                    elif not scheme:
-                        redirect_url = url.join(redirect_url)
-                    
                     if url.origin() != redirect_url.origin():
                         try:
                             del headers[AUTHORIZATION]
@@ -542,10 +540,10 @@ class HTTPClient(RichAttributeErrorBaseType):
                     
                     response.release()
                     
-                    redirect_url = URL(redirect_url)
+                    redirect_url = URL(urljoin(url.value_encoded, redirect_url), encoded = True)
                     
                     scheme = redirect_url.scheme
-                    if scheme not in ('http', 'https', ''):
+                    if scheme not in ('http', 'https'):
                         response.close()
                         raise ConnectionError(
                             f'Can redirect only to http or https, got {scheme!r}',
@@ -553,9 +551,6 @@ class HTTPClient(RichAttributeErrorBaseType):
                             tuple(history),
                         )
                     
-                    elif not scheme:
-                        redirect_url = url.join(redirect_url)
-                    
                     url = redirect_url
                     query = None
                     continue
-- 
2.43.0


From 44c32b185dc38422e6db357f12de257cdf4014f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:07 +0000
Subject: [PATCH 46/61] fix: headers of the previous request are sent to the
 host redirected to

---
 scarletio/http_client/http_client.py | 31 +++++++++++++++++++---------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/scarletio/http_client/http_client.py b/scarletio/http_client/http_client.py
index 28d365a..94ada9e 100755
--- a/scarletio/http_client/http_client.py
+++ b/scarletio/http_client/http_client.py
@@ -6,8 +6,8 @@ from warnings import warn
 from ..utils import IgnoreCaseMultiValueDictionary, RichAttributeErrorBaseType, export
 from ..web_common import CookieJar, URL
 from ..web_common.headers import (
-    AUTHORIZATION, CONTENT_LENGTH, LOCATION, METHOD_DELETE, METHOD_GET, METHOD_HEAD, METHOD_OPTIONS, METHOD_PATCH,
-    METHOD_POST, METHOD_PUT, URI
+    AUTHORIZATION, CONTENT_LENGTH, HOST, LOCATION, METHOD_DELETE, METHOD_GET, METHOD_HEAD, METHOD_OPTIONS,
+    METHOD_PATCH, METHOD_POST, METHOD_PUT, URI
 )
 from ..web_common.helpers import Timeout, set_tcp_nodelay
 from ..web_socket import WebSocketClient
@@ -213,6 +213,7 @@ class HTTPClient(RichAttributeErrorBaseType):
         
         headers = IgnoreCaseMultiValueDictionary(headers)
         
+        authorization = None
         history = []
         request_info = None
         url = URL(url)
@@ -225,11 +226,11 @@ class HTTPClient(RichAttributeErrorBaseType):
                     self.loop,
                     method,
                     url,
-                    headers,
+                    headers.copy(),
                     data,
                     query,
                     cookies,
-                    None,
+                    authorization,
                     None,
                     self.proxy,
                     None,
@@ -288,11 +289,13 @@ class HTTPClient(RichAttributeErrorBaseType):
                             tuple(history),
                         )
                     
-                    if url.origin() != redirect_url.origin():
-                        try:
-                            del headers[AUTHORIZATION]
-                        except KeyError:
-                            pass
+                    if url.origin() == redirect_url.origin():
+                        authorization = request.authorization
+                    else:
+                        # Do not send anything meant for an other origin.
+                        authorization = None
+                        headers.pop(AUTHORIZATION, None)
+                        headers.pop(HOST, None)
                     
                     url = redirect_url
                     query = None
@@ -488,7 +491,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                     self.loop,
                     method,
                     url,
-                    headers,
+                    headers.copy(),
                     data,
                     query,
                     cookies,
@@ -551,6 +554,14 @@ class HTTPClient(RichAttributeErrorBaseType):
                             tuple(history),
                         )
                     
+                    if url.origin() == redirect_url.origin():
+                        authorization = request.authorization
+                    else:
+                        # Do not send anything meant for an other origin.
+                        authorization = None
+                        headers.pop(AUTHORIZATION, None)
+                        headers.pop(HOST, None)
+                    
                     url = redirect_url
                     query = None
                     continue
-- 
2.43.0


From b37c36d28809b4cb6307afe19de47107b92de646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 47/61] fix: control frames are not limited by what is left of
 the size of the message they interleave

---
 scarletio/web_common/http_protocol.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index ebe4f46..fa9debc 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -402,7 +402,11 @@ class HttpReadProtocol(ReadProtocolBase):
             data = await self.read_exactly(8)
             length, = UNPACK_LENGTH_3(data)
         
-        if (max_size is not None) and length > max_size:
+        # The size limit is for (the rest of) the received message, what control frames are not part of.
+        if head_0 & 0b00001000:
+            if length > 125:
+                raise WebSocketProtocolError('Control frame too long.')
+        elif (max_size is not None) and length > max_size:
             raise PayloadError(f'Payload length exceeds size limit ({length} > {max_size} bytes).')
         
         # Read the data.
-- 
2.43.0


From 47552d1b77099a46909a4ed77b5df03a519b64ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:26 +0000
Subject: [PATCH 48/61] fix: binary messages and pings received by web socket
 servers are bytearrays

---
 scarletio/web_common/http_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index fa9debc..77cdb54 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -415,7 +415,7 @@ class HttpReadProtocol(ReadProtocolBase):
         else:
             mask = await self.read_exactly(4)
             data = await self.read_exactly(length)
-            data = apply_web_socket_mask(mask, data)
+            data = bytes(apply_web_socket_mask(mask, data))
         
         return WebSocketFrame._from_fields(head_0, data)
     
-- 
2.43.0


From d9053d29657990868c3b6511adcd9d8b178e0978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 49/61] fix: pinging with mutable bytes-like data fails

---
 scarletio/web_socket/web_socket_common_protocol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 5408a84..90de3a1 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -473,6 +473,9 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
                 f'Data must be `bytes-like`, `str`, got: {type(data).__name__}; {reprlib.repr(data)}.'
             )
         
+        # Pings are looked up by their data, so it cannot be mutable.
+        data = bytes(data)
+        
         pings = self.pings
         while data in pings:
             data = urandom(4)
-- 
2.43.0


From be5f7d41840555351d41e3b85e007d1bb15ad865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 50/61] fix: a pong fails the web socket instead of completing
 the pings

---
 scarletio/web_socket/web_socket_common_protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 90de3a1..1e8b6d5 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -820,8 +820,8 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             #checking all pings up to the one matching this pong.
             ping_id = b''
             while ping_id != frame.data:
-                ping_id, pong_waiter = self.pings.popitem(0)
-                pong_waiter.set_resultd_if_pending(None)
+                ping_id, pong_waiter = self.pings.popitem(last = False)
+                pong_waiter.set_result_if_pending(None)
         
         return True
     
-- 
2.43.0


From d14bbb7584a307437be2e451f2d5c7464fc104b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 51/61] fix: a ping received after a close frame is sent blocks
 till timeout

---
 scarletio/web_socket/web_socket_common_protocol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 1e8b6d5..3cfa0ad 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -812,6 +812,10 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             return False
         
         if operation_code == WEB_SOCKET_OPERATION_PING:
+            # Nothing can be sent after a close frame.
+            if self.state != WEB_SOCKET_STATE_OPEN:
+                return True
+            
             await self.pong(frame.data)
             return True
         
-- 
2.43.0


From ed799edae2a5b92a54e9954f1e03db6d971c7871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:41 +0000
Subject: [PATCH 52/61] fix: web sockets do not wait for their connection to be
 lost

---
 scarletio/web_socket/web_socket_common_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 3cfa0ad..cfc8f6c 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -1024,7 +1024,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             Returns `True` if the connection is lost.
         """
         connection_lost_waiter = self.connection_lost_waiter
-        if not connection_lost_waiter.is_done():
+        if connection_lost_waiter.is_done():
             return True
         
         waiter = shield(connection_lost_waiter, self._loop)
-- 
2.43.0


From abb72622ec51ed63950ce50e4997b8364c27a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 53/61] fix: web socket clients leave their connection open
 after closing

---
 scarletio/web_socket/web_socket_common_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index cfc8f6c..853f77a 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -992,7 +992,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         
         finally:
             # finally ensures that the transport never remains open
-            if self.connection_lost_waiter.is_done() and not self.is_ssl:
+            if self.state == WEB_SOCKET_STATE_CLOSED:
                 return
             
             # Close the TCP connection
-- 
2.43.0


From 78d564235f143745908e99df733083a0e9858d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 54/61] fix: closing a web socket with a too long reason leaves
 it in closing state

---
 scarletio/web_socket/web_socket_common_protocol.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 853f77a..d67f2d9 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -435,7 +435,13 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
                 f'Status can be in range [3000:5000), got {code!r}.'
             )
         
-        return code.to_bytes(2, 'big') + reason.encode('utf-8')
+        reason_data = reason.encode('utf-8')
+        if len(reason_data) > 123:
+            raise WebSocketProtocolError(
+                f'Reason can be up to 123 bytes long, got {len(reason_data)!r}; {reprlib.repr(reason)}.'
+            )
+        
+        return code.to_bytes(2, 'big') + reason_data
     
     async def ping(self, data = None):
         """
-- 
2.43.0


From 9aa0b7a5c8aa9626a575dfe425757a741c3773a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:18 +0000
Subject: [PATCH 55/61] fix: receivers of a web socket whose closing is not
 answered get that it was closed normally

---
 scarletio/web_socket/web_socket_common_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index d67f2d9..2b49b9d 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -590,7 +590,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         
         except CancelledError as exception:
             # we already failed connection
-            transfer_data_exception = ConnectionClosed(self.close_code or 1000, exception, self.close_reason)
+            transfer_data_exception = ConnectionClosed(self.close_code or 1006, exception, self.close_reason)
             to_reraise = exception
         
         except WebSocketProtocolError as exception:
-- 
2.43.0


From 50d05ebd41d5b5763857e6108a94371a1d76810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:30 +0000
Subject: [PATCH 56/61] fix: closing a web socket after the other side
 disconnected fails

---
 scarletio/web_socket/web_socket_common_protocol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 2b49b9d..5ded242 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -978,6 +978,10 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
                 except TimeoutError:
                     pass
             
+            # Nothing can be sent anymore, not even a close frame.
+            if self.state == WEB_SOCKET_STATE_OPEN:
+                self.state = WEB_SOCKET_STATE_CLOSING
+            
             # Cancel all pending pings because they'll never receive a pong.
             for ping in self.pings.values():
                 ping.cancel()
-- 
2.43.0


From 1ca70c7e2cd127dd4402c7d2158cf4ec4140d803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 57/61] fix: a ping without data is not completed by its pong

---
 scarletio/web_socket/web_socket_common_protocol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 5ded242..a78bbb2 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -828,10 +828,11 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         # operation_code == OP_PONG:
         if frame.data in self.pings:
             #checking all pings up to the one matching this pong.
-            ping_id = b''
-            while ping_id != frame.data:
+            while True:
                 ping_id, pong_waiter = self.pings.popitem(last = False)
                 pong_waiter.set_result_if_pending(None)
+                if ping_id == frame.data:
+                    break
         
         return True
     
-- 
2.43.0


From e74925092fa0c74d0b03ce9fc2fa4518a8c9e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:54 +0000
Subject: [PATCH 58/61] fix: frames waiting to be written are written after the
 close frame or fail when the web socket is closed meanwhile

---
 .../web_socket/web_socket_common_protocol.py  | 46 +++++++++++++++++--
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index a78bbb2..494a370 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -822,7 +822,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             if self.state != WEB_SOCKET_STATE_OPEN:
                 return True
             
-            await self.pong(frame.data)
+            await self._try_write_frame(WEB_SOCKET_OPERATION_PONG, frame.data, WEB_SOCKET_STATE_OPEN)
             return True
         
         # operation_code == OP_PONG:
@@ -907,8 +907,45 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         if self.state != _expected_state:
             raise RuntimeError(f'Cannot write to a WebSocket in the {self.state} state.')
 
+        if not (await self._try_write_frame(operation_code, data, _expected_state)):
+            # raise ConnectionClosed with the correct code and reason.
+            await self.ensure_open()
+            await shield(self.close_connection_task, self._loop)
+            raise ConnectionClosed(self.close_code, None, self.close_reason)
+    
+    
+    async def _try_write_frame(self, operation_code, data, expected_state):
+        """
+        Writes the data as web socket if the state of the web socket stays as expected till it can be done.
+        
+        This method is a coroutine.
+        
+        Parameters
+        ----------
+        operation_code : `int`
+            The operation code of the web socket frame.
+        
+        data : `bytes-like`
+            The data to send.
+        
+        expected_state : `int`
+            Expected state of the web socket.
+        
+        Returns
+        -------
+        written : `bool`
+        
+        Raises
+        ------
+        WebSocketProtocolError
+            - If the frame is incorrect.
+        """
         # we write only 1 frame at a time, so we 'queue' it
         async with self._drain_lock:
+            # The web socket might have been closed while waiting.
+            if (self.state != expected_state) or self.transfer_data_task.is_done():
+                return False
+            
             try:
                 frame = WebSocketFrame(True, operation_code, data)
                 
@@ -923,8 +960,9 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
                 await self.drain()
             except ConnectionError:
                 self.fail_connection()
-                # raise ConnectionClosed with the correct code and reason.
-                await self.ensure_open()
+                return False
+        
+        return True
     
     
     async def write_close_frame(self, data = b''):
@@ -956,7 +994,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         # check connection before we write
         if self.state == WEB_SOCKET_STATE_OPEN:
             self.state = WEB_SOCKET_STATE_CLOSING
-            await self.write_frame(WEB_SOCKET_OPERATION_CLOSE, data, WEB_SOCKET_STATE_CLOSING)
+            await self._try_write_frame(WEB_SOCKET_OPERATION_CLOSE, data, WEB_SOCKET_STATE_CLOSING)
     
     
     async def close_connection(self):
-- 
2.43.0


From 65ff3489f11e945b5a9c09bf382346489f6d7499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:06 +0000
Subject: [PATCH 59/61] fix: a web socket client does not abort its connection
 when it cannot be closed

---
 scarletio/web_socket/web_socket_common_protocol.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 494a370..d173727 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -632,11 +632,6 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             # connection was closed
             transfer_data_exception = ConnectionClosed(self.close_code or 1000, None, self.close_reason)
             to_reraise = None
-            
-            # If we are a client and we receive this, we closed our own
-            # connection, there is no reason to wait for TCP abort
-            if self.is_client:
-                self.connection_lost_waiter.set_result_if_pending(None)
         
         if self.transfer_data_exception is None:
             self.transfer_data_exception = transfer_data_exception
@@ -1025,6 +1020,10 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             for ping in self.pings.values():
                 ping.cancel()
             
+            # If we are a client and both sides are closed, there is no reason to wait for TCP close
+            if self.is_client and self.close_code:
+                return
+            
             # A client should wait for a TCP close from the server.
             if self.is_client and (self.transfer_data_task is not None):
                 if (await self.wait_for_connection_lost()):
-- 
2.43.0


From 36bb0c920ea4ecd8e3a96d2fafa94179d3f65f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 60/61] fix: cancelling the closing of a web socket cancels
 everyone else closing it

---
 .../web_socket/web_socket_common_protocol.py    | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index d173727..73a92d2 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -387,15 +387,24 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         except TimeoutError:
             self.fail_connection()
         
+        except CancelledError:
+            self.fail_connection()
+            raise
+        
         # if close() is cancelled during the wait, self.transfer_data_task is cancelled before the close_timeout
-        # elapses
+        # elapses. It is shielded, since there can be more tasks closing.
         transfer_data_task = self.transfer_data_task
         if (transfer_data_task is not None):
-            transfer_data_task.apply_timeout(self.close_timeout)
+            waiter = shield(transfer_data_task, self._loop)
+            waiter.apply_timeout(self.close_timeout)
             try:
-                await transfer_data_task
+                await waiter
             except TimeoutError:
-                pass
+                self.fail_connection()
+            
+            except CancelledError:
+                self.fail_connection()
+                raise
         
         # Quit for the close connection task to close the TCP connection.
         close_connection_task = self.close_connection_task
-- 
2.43.0


From 7869fe4c9ca24d563a178012ed8feba45cedf8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 61/61] fix: a ping which cannot be sent is left waiting for
 its pong

---
 scarletio/web_socket/web_socket_common_protocol.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 73a92d2..f4fc0db 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -498,7 +498,14 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         waiter = Future(self._loop)
         pings[data] = waiter
         
-        await self.write_frame(WEB_SOCKET_OPERATION_PING, data)
+        try:
+            await self.write_frame(WEB_SOCKET_OPERATION_PING, data)
+        except:
+            # The ping was not sent, so no pong will come either.
+            if pings.get(data, None) is waiter:
+                del pings[data]
+            
+            raise
         
         await waiter
     
-- 
2.43.0

