From 76a10c6088e915e5acde50ae73990040601c0afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:24 +0000
Subject: [PATCH 01/34] fix: do not lose concurrent updates of the span context
 in set_baggage_item

The new context was computed from the old one outside of the lock, so a
concurrent baggage item or sampling.priority change could be overwritten.
---
 jaeger_client/span.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index 65ff161..eee00f4 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -149,10 +149,9 @@ class Span(opentracing.Span):
         return self
 
     def set_baggage_item(self, key: str, value: Optional[str]) -> 'Span':
-        prev_value = self.get_baggage_item(key=key)
-        new_context = self.context.with_baggage_item(key=key, value=value)
         with self.update_lock:
-            self._context = new_context
+            prev_value = self.get_baggage_item(key=key)
+            self._context = self.context.with_baggage_item(key=key, value=value)
         if self.is_sampled():
             logs = {
                 'event': 'baggage',
-- 
2.43.0


From bf82beae5cb1163955d88e4b4de370f9c67718ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:26 +0000
Subject: [PATCH 02/34] fix: encode a snapshot of the tags and logs of a span

The batch shared the live lists with the span; a tag or log appended while
the batch was being encoded made the list longer than its encoded size and
corrupted the datagram.
---
 jaeger_client/thrift.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index fbe07ff..7cbec4d 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -213,8 +213,9 @@ def make_jaeger_batch(spans, process):
                 flags=span.context.flags,
                 startTime=timestamp_micros(span.start_time),
                 duration=timestamp_micros(span.end_time - span.start_time),
-                tags=span.tags,  # TODO
-                logs=span.logs,  # TODO
+                # copy, the application can still append to these during encoding
+                tags=list(span.tags),
+                logs=list(span.logs),
             )
         batch.spans.append(jaeger_span)
     return batch
-- 
2.43.0


From a6225fc184b0bd388acc2792afc040d021bccc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:27 +0000
Subject: [PATCH 03/34] fix: complete the future of a repeated Reporter.close()

The second stop marker was never consumed, so the second future never
completed.
---
 jaeger_client/reporter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 6888aa8..1b77aab 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -236,8 +236,11 @@ class Reporter(BaseReporter):
     def _flush(self):
         # stopping here ensures we don't lose spans from pending _report_span_from_ioloop callbacks
         with self.stop_lock:
+            already_stopped = self.stopped
             self.stopped = True
-        yield self.queue.put(self.stop)
+        if not already_stopped:
+            # nobody consumes the queue after the first stop marker
+            yield self.queue.put(self.stop)
         yield self.queue.join()
 
 
-- 
2.43.0


From af957124c17b9c54d2f35973fad1d92b746c511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:29 +0000
Subject: [PATCH 04/34] fix: do not prepend a partially encoded batch to the
 next datagram

When encoding of a batch failed half-way the encoded part stayed in the
buffer of the channel and corrupted the next batch.
---
 jaeger_client/local_agent_net.py | 8 ++++++--
 jaeger_client/reporter.py        | 9 ++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/local_agent_net.py b/jaeger_client/local_agent_net.py
index 7f95606..402e9e0 100644
--- a/jaeger_client/local_agent_net.py
+++ b/jaeger_client/local_agent_net.py
@@ -78,8 +78,12 @@ class LocalAgentSender(TBufferedTransport):
 
         # UDP reporting - this will only get written to after our flush() call.
         # We are buffering things up because we are a TBufferedTransport.
-        udp = TUDPTransport(host, reporting_port)
-        TBufferedTransport.__init__(self, udp)
+        self._udp = TUDPTransport(host, reporting_port)
+        TBufferedTransport.__init__(self, self._udp)
+
+    def discard(self):
+        """Drop everything written since the last flush()."""
+        TBufferedTransport.__init__(self, self._udp)
 
     def _create_new_thread_loop(self):
         """
diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 1b77aab..01e3fab 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -223,7 +223,14 @@ class Reporter(BaseReporter):
         Send batch of spans out via thrift transport. Any exceptions thrown
         will be caught above in the exception handler of _submit().
         """
-        return self.agent.emitBatch(batch)
+        try:
+            return self.agent.emitBatch(batch)
+        except Exception:
+            # the beginning of the batch must not become a prefix of the next one
+            discard = getattr(self._channel, 'discard', None)
+            if discard:
+                discard()
+            raise
 
     def close(self) -> Future:
         """
-- 
2.43.0


From a287e128a99f9845578911d081ab6732830770ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:31 +0000
Subject: [PATCH 05/34] fix: encode integer tags that do not fit into 64 bits
 as strings

They could not be encoded at all and failed the whole batch.
---
 jaeger_client/thrift.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index 7cbec4d..c7eef2b 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -66,7 +66,7 @@ def make_tag(key, value, max_length, max_traceback_length):
             key=key,
             value=value
         )
-    elif isinstance(value, int):
+    elif isinstance(value, int) and -_max_signed_id - 1 <= value <= _max_signed_id:
         return _make_long_tag(
             key=key,
             value=value
-- 
2.43.0


From 2fb3feee2c463680bdfe3948ef0ef1f0b8b08eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:33 +0000
Subject: [PATCH 06/34] fix: reject extracted trace contexts with out of range
 ids

Negative (B3) and oversized ids and flags were accepted, although they can be
neither injected into all formats nor reported to the agent.
---
 jaeger_client/codecs.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 3f11755..53ff28d 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -24,6 +24,8 @@ from .constants import (
     BAGGAGE_HEADER_PREFIX,
     DEBUG_ID_HEADER_KEY,
     TRACE_ID_HEADER,
+    _max_id_bits,
+    _max_trace_id_bits,
 )
 from .span_context import SpanContext
 from .constants import SAMPLED_FLAG, DEBUG_FLAG
@@ -248,6 +250,10 @@ def span_context_from_string(value):
         if trace_id < 1 or span_id < 1 or parent_id < 0 or flags < 0:
             raise SpanContextCorruptedException(
                 'malformed trace context "%s"' % value)
+        if trace_id >> _max_trace_id_bits or span_id >> _max_id_bits \
+                or parent_id >> _max_id_bits or flags > 0xff:
+            raise SpanContextCorruptedException(
+                'trace context out of range "%s"' % value)
         if parent_id == 0:
             parent_id = None
         return trace_id, span_id, parent_id, flags
@@ -304,16 +310,20 @@ class ZipkinCodec(Codec):
                            baggage=None)
 
 
-def header_to_hex(header):
+def header_to_hex(header, max_bits=_max_id_bits):
     if not isinstance(header, (str,)):
         raise SpanContextCorruptedException(
             'malformed trace context "%s", expected hex string' % header)
 
     try:
-        return int(header, 16)
+        value = int(header, 16)
     except ValueError:
         raise SpanContextCorruptedException(
             'malformed trace context "%s", expected hex string' % header)
+    if value < 0 or value >> max_bits:
+        raise SpanContextCorruptedException(
+            'trace context out of range "%s"' % header)
+    return value
 
 
 class B3Codec(Codec):
@@ -361,7 +371,7 @@ class B3Codec(Codec):
                 continue
             lower_key = header_key.lower()
             if lower_key == self._trace_header_lc:
-                trace_id = header_to_hex(header_value)
+                trace_id = header_to_hex(header_value, _max_trace_id_bits)
             elif lower_key == self._span_header_lc:
                 span_id = header_to_hex(header_value)
             elif lower_key == self._parent_span_header_lc:
-- 
2.43.0


From ef77db55c919d689b22f3b21296eaf779c554dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:36 +0000
Subject: [PATCH 07/34] fix: raise SpanContextCorruptedException for malformed
 binary carriers

Truncated or corrupted carriers escaped as struct.error or
UnicodeDecodeError, and a corrupted length could be negative or allocate
gigabytes.
---
 jaeger_client/codecs.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 53ff28d..952a826 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -157,6 +157,12 @@ class BinaryCodec(Codec):
     def extract(self, carrier):
         if not isinstance(carrier, bytearray):
             raise InvalidCarrierException('carrier not a bytearray')
+        try:
+            return self._extract(carrier)
+        except (struct.error, UnicodeDecodeError) as e:
+            raise SpanContextCorruptedException('malformed binary trace context: %s' % e)
+
+    def _extract(self, carrier):
         baggage = {}
         high_trace_id, low_trace_id, span_id, parent_id, flags, baggage_count = \
             struct.unpack('>QQQQBI', carrier[:37])
@@ -199,10 +205,11 @@ class BinaryCodec(Codec):
         return key, value, bytes_read
 
     def _read_kv(self, data):
-        data_len = struct.unpack('>i', data[:4])[0]
-        data_value = struct.unpack('>' + 'c' * data_len, data[4:4 + data_len])
+        data_len = struct.unpack('>I', data[:4])[0]
         bytes_read = 4 + data_len
-        return b''.join(data_value).decode('utf-8'), bytes_read
+        if len(data) < bytes_read:
+            raise struct.error('baggage is truncated')
+        return data[4:bytes_read].decode('utf-8'), bytes_read
 
 
 def span_context_to_string(trace_id, span_id, parent_id, flags):
-- 
2.43.0


From da817734d096e0cf22bc88e9a6ccd2c3fc80d472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:38 +0000
Subject: [PATCH 08/34] fix: make RateLimiter thread-safe

Two threads could spend the same credit, or credit the same interval twice,
and exceed the rate limit.
---
 jaeger_client/rate_limiter.py | 24 ++++++++++++++----------
 jaeger_client/sampler.py      |  3 ++-
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/jaeger_client/rate_limiter.py b/jaeger_client/rate_limiter.py
index 0778db4..9a4aa56 100644
--- a/jaeger_client/rate_limiter.py
+++ b/jaeger_client/rate_limiter.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import random
+import threading
 import time
 
 
@@ -42,24 +43,27 @@ class RateLimiter(object):
         self.max_balance = max_balance
         self.balance = self.max_balance * random.random()
         self.last_tick = self.timestamp()
+        self.lock = threading.Lock()
 
     @staticmethod
     def timestamp():
         return time.time()
 
     def update(self, credits_per_second, max_balance):
-        self._update_balance()
-        self.credits_per_second = credits_per_second
-        # The new balance should be proportional to the old balance.
-        self.balance = max_balance * self.balance / self.max_balance
-        self.max_balance = max_balance
+        with self.lock:
+            self._update_balance()
+            self.credits_per_second = credits_per_second
+            # The new balance should be proportional to the old balance.
+            self.balance = max_balance * self.balance / self.max_balance
+            self.max_balance = max_balance
 
     def check_credit(self, item_cost):
-        self._update_balance()
-        if self.balance >= item_cost:
-            self.balance -= item_cost
-            return True
-        return False
+        with self.lock:
+            self._update_balance()
+            if self.balance >= item_cost:
+                self.balance -= item_cost
+                return True
+            return False
 
     def _update_balance(self):
         current_time = self.timestamp()
diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 355f853..1453949 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -175,13 +175,14 @@ class RateLimitingSampler(Sampler):
         pass
 
     def __eq__(self, other: Any) -> bool:
-        """The last_tick and balance fields can be different"""
+        """The last_tick, balance and lock fields can be different"""
         if not isinstance(other, self.__class__):
             return False
         d1 = dict(self.rate_limiter.__dict__)
         d2 = dict(other.rate_limiter.__dict__)
         d1['balance'] = d2['balance']
         d1['last_tick'] = d2['last_tick']
+        d1['lock'] = d2['lock']
         return d1 == d2
 
     def update(self, max_traces_per_second: float) -> bool:
-- 
2.43.0


From cb1b1b428f0eebae12db3b3a4bf3e9ff8eb3f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:40 +0000
Subject: [PATCH 09/34] fix: do not take credits away when the clock is stepped
 back

The balance became negative and nothing was sampled until the clock caught up.
---
 jaeger_client/rate_limiter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/rate_limiter.py b/jaeger_client/rate_limiter.py
index 9a4aa56..80ed5e2 100644
--- a/jaeger_client/rate_limiter.py
+++ b/jaeger_client/rate_limiter.py
@@ -67,7 +67,8 @@ class RateLimiter(object):
 
     def _update_balance(self):
         current_time = self.timestamp()
-        elapsed_time = current_time - self.last_tick
+        # the clock can be stepped back, which must not take credits away
+        elapsed_time = max(current_time - self.last_tick, 0)
         self.last_tick = current_time
         self.balance += elapsed_time * self.credits_per_second
         if self.balance > self.max_balance:
-- 
2.43.0


From 43dbfebb0c79b6f49a238a10cee32f604be24c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:41 +0000
Subject: [PATCH 10/34] fix: reject invalid adaptive sampling strategies as a
 whole

An invalid default lower bound or probability was accepted and made
is_sampled() raise later, and an invalid strategy in the middle of a response
left the sampler half updated.
---
 jaeger_client/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 1453949..b9723bc 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -278,6 +278,7 @@ class AdaptiveSampler(Sampler):
         self.default_sampling_probability = \
             strategies.get(DEFAULT_SAMPLING_PROBABILITY_STR, DEFAULT_SAMPLING_PROBABILITY)
         self.lower_bound = strategies.get(DEFAULT_LOWER_BOUND_STR, DEFAULT_LOWER_BOUND)
+        RateLimitingSampler(self.lower_bound)  # reject an invalid lower bound
         self.max_operations = max_operations
 
     def is_sampled(self, trace_id: int, operation: str = '') -> _IsSampledType:
@@ -296,6 +297,8 @@ class AdaptiveSampler(Sampler):
 
     def update(self, strategies: Dict[str, Any]) -> None:
         # (NB) This function should only be called while holding a Write lock.
+        # reject invalid strategies before changing anything
+        AdaptiveSampler(strategies, self.max_operations)
         for strategy in strategies.get(STRATEGIES_STR, []):
             operation = strategy.get(OPERATION_STR)
             lower_bound = strategies.get(DEFAULT_LOWER_BOUND_STR, DEFAULT_LOWER_BOUND)
-- 
2.43.0


From 48be5e69e5df804ac76379f7d175c4de01f9e684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:44 +0000
Subject: [PATCH 11/34] fix: count responses of the agent that are not UTF-8 as
 failures

The decoding error escaped into the event loop.
---
 jaeger_client/sampler.py   | 8 +++-----
 jaeger_client/throttler.py | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index b9723bc..2b8443a 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -439,12 +439,10 @@ class RemoteControlledSampler(Sampler):
 
         # In Python 3.5 response.body is of type bytes and json.loads() does only support str
         # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
-        if hasattr(response.body, 'decode') and callable(response.body.decode):
-            response_body = response.body.decode('utf-8')
-        else:
-            response_body = response.body
-
+        response_body = response.body
         try:
+            if hasattr(response.body, 'decode') and callable(response.body.decode):
+                response_body = response.body.decode('utf-8')
             sampling_strategies_response = json.loads(response_body)
             self.metrics.sampler_retrieved(1)
         except Exception as e:
diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index 6866e4b..e60d273 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -157,12 +157,10 @@ class RemoteThrottler(Throttler):
         response = future.result()
         # In Python 3.5 response.body is of type bytes and json.loads() does only support str
         # See: https://github.com/jaegertracing/jaeger-client-python/issues/180
-        if hasattr(response.body, 'decode') and callable(response.body.decode):
-            response_body = response.body.decode('utf-8')
-        else:
-            response_body = response.body
-
+        response_body = response.body
         try:
+            if hasattr(response.body, 'decode') and callable(response.body.decode):
+                response_body = response.body.decode('utf-8')
             throttling_response = json.loads(response_body)
             self.logger.debug('Received throttling response: %s',
                               throttling_response)
-- 
2.43.0


From 13e34cbd1398996cb138bccc210b27d77b2accc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:45 +0000
Subject: [PATCH 12/34] fix: do not iterate over the credits of the throttler
 outside of the lock

A new debug operation on another thread made the iteration fail.
---
 jaeger_client/throttler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index e60d273..c3c6543 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -117,7 +117,7 @@ class RemoteThrottler(Throttler):
 
     def _operations(self):
         with self.lock:
-            return self.credits.keys()
+            return list(self.credits.keys())
 
     def _delayed_polling(self):
         def callback():
-- 
2.43.0


From 49587aabc34f9908e722c68d8bd208203d9d321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:48 +0000
Subject: [PATCH 13/34] fix: stop the throttler when the tracer is closed

It continued to poll the agent forever.
---
 jaeger_client/tracer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 1c6c002..08dddee 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -291,6 +291,8 @@ class Tracer(opentracing.Tracer):
             flush has been completed.
         """
         self.sampler.close()
+        if self.throttler:
+            self.throttler.close()
         return self.reporter.close()
 
     def _emit_span_metrics(self, span: Span, join: Optional[bool] = False) -> Span:
-- 
2.43.0


From f17a86c1e9baf9a0fab0a70930bbaa732e13c74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:49 +0000
Subject: [PATCH 14/34] fix: consult the sampler for a root span with ad-hoc
 baggage

Traces started from a request with only baggage headers were never sampled.
---
 jaeger_client/tracer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 08dddee..529d6ea 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -187,7 +187,7 @@ class Tracer(opentracing.Tracer):
             parent_id = None
             flags = 0
             baggage = None
-            if parent is None:
+            if parent is None or not parent.debug_id:
                 sampled, sampler_tags = \
                     self.sampler.is_sampled(trace_id, operation_name or '')
                 if sampled:
@@ -195,7 +195,7 @@ class Tracer(opentracing.Tracer):
                     tags = tags or {}
                     for k, v in sampler_tags.items():
                         tags[k] = v
-            elif parent.debug_id and self.is_debug_allowed(operation_name):
+            elif self.is_debug_allowed(operation_name):
                 flags = SAMPLED_FLAG | DEBUG_FLAG
                 tags = tags or {}
                 tags[self.debug_id_header] = parent.debug_id
-- 
2.43.0


From a55e620a720875dd2012f494703b0ff1b7f63be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 15/34] fix: do not report references to contexts without a
 trace

Their ids are None, which are required fields of the span reference, and the
agent rejects the whole batch.
---
 jaeger_client/thrift.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaeger_client/thrift.py b/jaeger_client/thrift.py
index c7eef2b..0de2621 100644
--- a/jaeger_client/thrift.py
+++ b/jaeger_client/thrift.py
@@ -187,6 +187,8 @@ def make_references(references):
         return None
     list_of_span_refs = list()
     for span_ref in references:
+        if not span_ref.referenced_context.has_trace:
+            continue  # a debug-id or baggage container, there is nothing to refer to
         list_of_span_refs.append(ttypes.SpanRef(
             refType=make_ref_type(span_ref.type),
             traceIdLow=id_to_int(_id_to_low(span_ref.referenced_context.trace_id)),
-- 
2.43.0


From dd47fb16abacf839439b224729bd887b7d1897c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 16/34] fix: ignore sampling.priority values that are not
 numbers

None, lists or infinity raised an exception into the application.
---
 jaeger_client/span.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/span.py b/jaeger_client/span.py
index eee00f4..652efea 100644
--- a/jaeger_client/span.py
+++ b/jaeger_client/span.py
@@ -124,7 +124,7 @@ class Span(opentracing.Span):
 
         try:
             value_num = int(value)
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             return False
         if value_num == 0:
             self.context.flags &= ~(SAMPLED_FLAG | DEBUG_FLAG)
-- 
2.43.0


From 84d2813b6e8494715c02c11f45bc627e057ea481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:56 +0000
Subject: [PATCH 17/34] fix: never generate zero ids

A zero id denotes the absence of an id.
---
 jaeger_client/tracer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index 529d6ea..abbd5ec 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -324,7 +324,11 @@ class Tracer(opentracing.Tracer):
         return self.random.getrandbits(constants.MAX_ID_BITS)
 
     def _random_id(self, bitsize: int) -> int:
-        return self.random.getrandbits(bitsize)
+        # zero is not a valid id
+        while True:
+            new_id = self.random.getrandbits(bitsize)
+            if new_id:
+                return new_id
 
     def is_debug_allowed(self, *args: Any, **kwargs: Any) -> bool:
         if not self.throttler:
-- 
2.43.0


From 7ff5f15e1e7addd97eff1d3e40ec40072186ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 18/34] fix: accept all supported keys in the validated config

'metrics', 'max_operations' and 'debug_id_header' are supported but were
rejected with validate=True.
---
 jaeger_client/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index c70f56a..6161f86 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -128,6 +128,9 @@ class Config(object):
                         'sampler',
                         'tags',
                         'enabled',
+                        'metrics',
+                        'max_operations',
+                        'debug_id_header',
                         'reporter_batch_size',
                         'reporter_queue_size',
                         'propagation',
-- 
2.43.0


From b05293a8edb92a8bf28621b138b3eb7abc66218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:00 +0000
Subject: [PATCH 19/34] fix: do not write JAEGER_TAGS into the config, accept
 '=' in tag values

---
 jaeger_client/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaeger_client/config.py b/jaeger_client/config.py
index 6161f86..e68a196 100644
--- a/jaeger_client/config.py
+++ b/jaeger_client/config.py
@@ -316,11 +316,11 @@ class Config(object):
         :return: Returns tags from config and `JAEGER_TAGS` environment variable
         to use as process-wide tracer tags
         """
-        tags = self.config.get('tags', {})
+        tags = dict(self.config.get('tags') or {})
         env_tags = os.environ.get('JAEGER_TAGS', '')
         if env_tags:
             for kv in env_tags.split(','):
-                key, value = kv.split('=')
+                key, value = kv.split('=', 1)
                 tags[key.strip()] = value.strip()
         return tags
 
-- 
2.43.0


From 24dbc405f5690b5ee46c4addde3c50df4a9cf63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 20/34] fix: complete the future returned by Reporter.close()
 in the loop of the caller

close() raised in threads without an event loop, before anything was flushed.
A coroutine of another running loop that awaited the future was not woken up.
An exception of the submitted function was lost since tornado's Future has no
set_exc_info().
---
 jaeger_client/ioloop_util.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/jaeger_client/ioloop_util.py b/jaeger_client/ioloop_util.py
index eb73b6f..2f0f43a 100644
--- a/jaeger_client/ioloop_util.py
+++ b/jaeger_client/ioloop_util.py
@@ -15,7 +15,7 @@
 
 import sys
 from tornado import gen
-from tornado.concurrent import Future
+from tornado.concurrent import Future, future_set_exc_info
 
 
 def submit(fn, io_loop, *args, **kwargs):
@@ -27,7 +27,10 @@ def submit(fn, io_loop, *args, **kwargs):
     :param kwargs: Kwargs to pass to coroutine
     :returns tornado.concurrent.Future: future result of coroutine
     """
-    future = Future()
+    try:
+        future = Future()
+    except RuntimeError:  # the calling thread has no event loop
+        future = Future(loop=io_loop.asyncio_loop)
 
     def execute():
         """Execute fn on the IOLoop."""
@@ -38,7 +41,7 @@ def submit(fn, io_loop, *args, **kwargs):
             # an exception. Let's pretend that it returned this dummy
             # future with our stack trace.
             f = gen.Future()
-            f.set_exc_info(sys.exc_info())
+            future_set_exc_info(f, sys.exc_info())
             on_done(f)
         else:
             result.add_done_callback(on_done)
@@ -50,9 +53,17 @@ def submit(fn, io_loop, *args, **kwargs):
         """
         exception = tornado_future.exception()
         if not exception:
-            future.set_result(tornado_future.result())
+            resolve(future.set_result, tornado_future.result())
+        else:
+            resolve(future.set_exception, exception)
+
+    def resolve(setter, value):
+        loop = future.get_loop()
+        if loop is not io_loop.asyncio_loop and loop.is_running():
+            # the caller waits in another thread
+            loop.call_soon_threadsafe(setter, value)
         else:
-            future.set_exception(exception)
+            setter(value)
 
     io_loop.add_callback(execute)
 
-- 
2.43.0


From 1df8516f255b739f0addd855f278a2cf52bcc209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 21/34] fix: do not poll the agent after the sampler or
 throttler was closed

A poll that was delayed when close() was called was still made.
---
 jaeger_client/sampler.py   | 3 +++
 jaeger_client/throttler.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/jaeger_client/sampler.py b/jaeger_client/sampler.py
index 2b8443a..089730f 100644
--- a/jaeger_client/sampler.py
+++ b/jaeger_client/sampler.py
@@ -409,6 +409,9 @@ class RemoteControlledSampler(Sampler):
                 'Delaying sampling strategy polling by %d sec', delay)
 
     def _delayed_polling(self):
+        with self.lock:
+            if not self.running:
+                return
         periodic = self._create_periodic_callback()
         self._poll_sampling_manager()  # Initialize sampler now
         with self.lock:
diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index c3c6543..d364887 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -120,6 +120,10 @@ class RemoteThrottler(Throttler):
             return list(self.credits.keys())
 
     def _delayed_polling(self):
+        with self.lock:
+            if not self.running:
+                return
+
         def callback():
             self._fetch_credits(self._operations())
 
-- 
2.43.0


From 2f2a31a1d6da1d896e9bc90ab88f0a041198c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:34 +0000
Subject: [PATCH 22/34] fix: B3 trace ids of more than 64 bits are injected
 with 32 digits

---
 jaeger_client/codecs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 952a826..17068fb 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -356,7 +356,8 @@ class B3Codec(Codec):
     def inject(self, span_context, carrier):
         if not isinstance(carrier, dict):
             raise InvalidCarrierException('carrier not a dictionary')
-        if self.generate_128bit_trace_id:
+        # the header is either 16 or 32 digits long, other tracers may use 128 bits
+        if self.generate_128bit_trace_id or span_context.trace_id >> _max_id_bits:
             carrier[self.trace_header] = format(span_context.trace_id, 'x').zfill(32)
         else:
             carrier[self.trace_header] = format(span_context.trace_id, 'x').zfill(16)
-- 
2.43.0


From 7cc191a3f9016ca13ae00d087bd783dea3dca942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:34 +0000
Subject: [PATCH 23/34] fix: list-valued trace headers are extracted from HTTP
 headers too

---
 jaeger_client/codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/codecs.py b/jaeger_client/codecs.py
index 17068fb..6f429b6 100644
--- a/jaeger_client/codecs.py
+++ b/jaeger_client/codecs.py
@@ -90,7 +90,7 @@ class TextCodec(Codec):
         for key, value in carrier.items():
             uc_key = key.lower()
             if uc_key == self.trace_id_header:
-                if self.url_encoding:
+                if self.url_encoding and isinstance(value, (str, bytes)):
                     value = urllib.parse.unquote(value)
                 trace_id, span_id, parent_id, flags = \
                     span_context_from_string(value)
-- 
2.43.0


From fe4c0210b49d82e029e0e9f1399fbde4e471d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 24/34] fix: composite and local reporters can be closed in
 threads without event loop

---
 jaeger_client/ioloop_util.py | 14 +++++++++++++-
 jaeger_client/reporter.py    |  6 ++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/ioloop_util.py b/jaeger_client/ioloop_util.py
index 2f0f43a..44b6df8 100644
--- a/jaeger_client/ioloop_util.py
+++ b/jaeger_client/ioloop_util.py
@@ -14,10 +14,22 @@
 
 
 import sys
-from tornado import gen
+from tornado import gen, ioloop
 from tornado.concurrent import Future, future_set_exc_info
 
 
+def new_future():
+    """
+    :returns tornado.concurrent.Future: pending future in the event loop of
+        the calling thread, which is created if there is none.
+    """
+    try:
+        return Future()
+    except RuntimeError:
+        ioloop.IOLoop.current()
+        return Future()
+
+
 def submit(fn, io_loop, *args, **kwargs):
     """Submit Tornado Coroutine to IOLoop.current().
 
diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index 01e3fab..f87d404 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -44,7 +44,7 @@ class BaseReporter(object):
         pass
 
     def close(self) -> Future:
-        fut: Future = Future()
+        fut: Future = ioloop_util.new_future()
         fut.set_result(True)
         return fut
 
@@ -282,7 +282,9 @@ class CompositeReporter(BaseReporter):
         from threading import Lock
         lock = Lock()
         count = [0]
-        future: Future = Future()
+        future: Future = ioloop_util.new_future()
+        if not self.reporters:
+            future.set_result(True)
 
         def on_close(_):
             with lock:
-- 
2.43.0


From 587ca514e084fe57376ae762404c3f1492a1c56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 25/34] fix: a malformed throttling response changes no credits

---
 jaeger_client/throttler.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/jaeger_client/throttler.py b/jaeger_client/throttler.py
index d364887..f4609a7 100644
--- a/jaeger_client/throttler.py
+++ b/jaeger_client/throttler.py
@@ -14,6 +14,7 @@
 
 import json
 import logging
+import math
 import random
 from threading import Lock
 from typing import Any, Optional
@@ -178,13 +179,19 @@ class RemoteThrottler(Throttler):
             return
 
     def _update_credits(self, response):
+        # check all balances first, so that a malformed response changes nothing
+        balances = []
+        for op_balance in response['balances']:
+            op = op_balance['operation']
+            balance = op_balance['balance']
+            if not isinstance(op, str):
+                raise ValueError('Operation is not a string: %r' % (op,))
+            if not math.isfinite(balance):
+                raise ValueError('Balance is not finite: %s' % balance)
+            balances.append((op, balance))
         with self.lock:
-            for op_balance in response['balances']:
-                op = op_balance['operation']
-                balance = op_balance['balance']
-                if op not in self.credits:
-                    self.credits[op] = 0
-                self.credits[op] += balance
+            for op, balance in balances:
+                self.credits[op] = self.credits.get(op, 0) + balance
             self.logger.debug('credits = %s', self.credits)
 
     def close(self) -> None:
-- 
2.43.0


From 2d980870cb36f2de29cf2486e0656c3b28db38b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 26/34] fix: Prometheus metrics can be created from any thread,
 with tags in any order

Two threads creating the same metric, or one that was created before with
its tags in another order, made prometheus_client raise ValueError; names
and labels with the same concatenation were taken for each other; and the
caller's tags were given the service label.
---
 jaeger_client/metrics/prometheus.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/jaeger_client/metrics/prometheus.py b/jaeger_client/metrics/prometheus.py
index a4f3339..e32e8be 100644
--- a/jaeger_client/metrics/prometheus.py
+++ b/jaeger_client/metrics/prometheus.py
@@ -13,9 +13,9 @@
 # limitations under the License.
 
 from jaeger_client.metrics import MetricsFactory
-from collections import defaultdict
 from prometheus_client import Counter, Gauge
-from typing import Any, Optional, Dict, Callable, DefaultDict
+from threading import Lock
+from typing import Any, Optional, Dict, Callable
 
 
 class PrometheusMetricsFactory(MetricsFactory):
@@ -23,7 +23,8 @@ class PrometheusMetricsFactory(MetricsFactory):
     Provides metrics backed by Prometheus
     """
     def __init__(self, namespace: str = '', service_name_label: Optional[str] = None) -> None:
-        self._cache: DefaultDict = defaultdict(object)
+        self._cache: Dict = {}
+        self._cache_lock = Lock()
         self._namespace = namespace
         self._service_name_label = service_name_label
 
@@ -36,22 +37,21 @@ class PrometheusMetricsFactory(MetricsFactory):
         return tag_name_list
 
     def _get_metric(self, metricType, name, tags):
+        tags = dict(tags or {})
         if self._service_name_label:
-            if tags is None:
-                tags = {'service': self._service_name_label}
-            else:
-                tags['service'] = self._service_name_label
+            tags['service'] = self._service_name_label
 
         label_name_list = self._get_tag_name_list(tags)
-        cache_key = name + '@@'.join(label_name_list)
+        cache_key = (name, frozenset(label_name_list))
 
-        metric = self._cache.get(cache_key)
-        if metric is None:
-            metric = metricType(name=name, documentation=name,
-                                labelnames=label_name_list, namespace=self._namespace)
-            self._cache[cache_key] = metric
+        with self._cache_lock:
+            metric = self._cache.get(cache_key)
+            if metric is None:
+                metric = metricType(name=name, documentation=name,
+                                    labelnames=label_name_list, namespace=self._namespace)
+                self._cache[cache_key] = metric
 
-        if tags is not None and len(tags) > 0:
+        if tags:
             metric = metric.labels(**tags)
 
         return metric
-- 
2.43.0


From f0fd7d4ea7907c280fa01c6a35d874bace6ce436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 27/34] fix: requests to the agent have their own timeout

AsyncHTTPClient is shared by everything that uses the event loop.  Its
defaults are those of whoever creates it first: the timeout of the request
was ignored if the application had used the client before, and became the
default of the application's requests otherwise.
---
 jaeger_client/local_agent_net.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/local_agent_net.py b/jaeger_client/local_agent_net.py
index 402e9e0..a4f6463 100644
--- a/jaeger_client/local_agent_net.py
+++ b/jaeger_client/local_agent_net.py
@@ -31,12 +31,12 @@ class LocalAgentHTTP(object):
         self.agent_http_port = int(port)
 
     def _request(self, path, timeout=DEFAULT_TIMEOUT, args=None):
-        http_client = tornado.httpclient.AsyncHTTPClient(
-            defaults=dict(request_timeout=timeout))
+        # the client is shared with everything else that uses this event loop
+        http_client = tornado.httpclient.AsyncHTTPClient()
         url = 'http://%s:%d/%s' % (self.agent_http_host, self.agent_http_port, path)
         if args:
             url = url_concat(url, args)
-        return http_client.fetch(url)
+        return http_client.fetch(url, request_timeout=timeout)
 
     def request_sampling_strategy(self, service_name, timeout=DEFAULT_TIMEOUT):
         return self._request('sampling', timeout=timeout, args={'service': service_name})
-- 
2.43.0


From 5999617e72f1d1e9f9e146b0cbc94e4248046257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 28/34] fix: network interfaces are looked up by their names

bytes(n) is n zero bytes in Python 3, so that none of eth0, eth1, ... was
ever found.
---
 jaeger_client/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/utils.py b/jaeger_client/utils.py
index ff464b4..4da32d2 100644
--- a/jaeger_client/utils.py
+++ b/jaeger_client/utils.py
@@ -93,7 +93,7 @@ def get_local_ip_by_interfaces() -> Optional[str]:
     ip = None
     # Check eth0, eth1, eth2, en0, ...
     interfaces = [
-        i + bytes(n) for i in (b'eth', b'en', b'wlan') for n in range(3)
+        i + b'%d' % n for i in (b'eth', b'en', b'wlan') for n in range(3)
     ]  # :(
     for interface in interfaces:
         try:
-- 
2.43.0


From 321b6a1db96e373520c33b00e4c5971e8e482b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 29/34] fix: concurrent errors are logged once per interval

Two threads could both find the deadline passed and log.
---
 jaeger_client/utils.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/jaeger_client/utils.py b/jaeger_client/utils.py
index 4da32d2..240543f 100644
--- a/jaeger_client/utils.py
+++ b/jaeger_client/utils.py
@@ -14,6 +14,7 @@
 
 import socket
 import struct
+import threading
 from logging import Logger
 
 import time
@@ -34,20 +35,22 @@ class ErrorReporter(object):
         self.logger = logger
         self.log_interval_minutes = log_interval_minutes
         self._last_error_reported_at = time.time()
+        self._lock = threading.Lock()
 
     def error(self, *args: Any) -> None:
         if self.logger is None:
             return
 
-        next_logging_deadline = \
-            self._last_error_reported_at + (self.log_interval_minutes * 60)
-        current_time = time.time()
-        if next_logging_deadline >= current_time:
-            # If we aren't yet at the next logging deadline
-            return
+        with self._lock:
+            next_logging_deadline = \
+                self._last_error_reported_at + (self.log_interval_minutes * 60)
+            current_time = time.time()
+            if next_logging_deadline >= current_time:
+                # If we aren't yet at the next logging deadline
+                return
+            self._last_error_reported_at = current_time
 
         self.logger.error(*args)
-        self._last_error_reported_at = current_time
 
 
 def get_boolean(string: str, default: bool) -> bool:
-- 
2.43.0


From 61f9ac0759bbc3febe4ee9d5f7dd0e5fe2baca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 30/34] fix: building a tracer does not fail when localhost
 cannot be resolved

---
 jaeger_client/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/utils.py b/jaeger_client/utils.py
index 240543f..1b33557 100644
--- a/jaeger_client/utils.py
+++ b/jaeger_client/utils.py
@@ -70,7 +70,10 @@ def local_ip() -> Optional[str]:
     try:
         ip = socket.gethostbyname(socket.gethostname())
     except IOError:
-        ip = socket.gethostbyname('localhost')
+        try:
+            ip = socket.gethostbyname('localhost')
+        except IOError:
+            ip = '127.0.0.1'
     if ip.startswith('127.'):
         ip = get_local_ip_by_interfaces()
         if ip is None:
-- 
2.43.0


From 9ec5955e62ce838335dcdf3c111dabba43b7f926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 31/34] fix: building a tracer does not fail when no socket can
 be created

---
 jaeger_client/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaeger_client/utils.py b/jaeger_client/utils.py
index 1b33557..5c7081b 100644
--- a/jaeger_client/utils.py
+++ b/jaeger_client/utils.py
@@ -83,7 +83,10 @@ def local_ip() -> Optional[str]:
 
 def get_local_ip_by_socket() -> Optional[str]:
     # Explanation : https://stackoverflow.com/questions/166506
-    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
+    try:
+        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
+    except IOError:
+        return None
     try:
         # doesn't even have to be reachable
         s.connect(('10.255.255.255', 1))
-- 
2.43.0


From 005c5759a58c4b71e8251c3a30ed19422951f0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:20 +0000
Subject: [PATCH 32/34] fix: closing survives a caller that gives up waiting

The future returned by close() may be cancelled, e.g. by asyncio.wait_for;
settling it afterwards raised InvalidStateError in the event loop.
---
 jaeger_client/ioloop_util.py | 9 +++++++--
 jaeger_client/reporter.py    | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/jaeger_client/ioloop_util.py b/jaeger_client/ioloop_util.py
index 44b6df8..3e9720f 100644
--- a/jaeger_client/ioloop_util.py
+++ b/jaeger_client/ioloop_util.py
@@ -70,12 +70,17 @@ def submit(fn, io_loop, *args, **kwargs):
             resolve(future.set_exception, exception)
 
     def resolve(setter, value):
+        def settle():
+            # the caller may have stopped waiting, e.g. after a timeout
+            if not future.cancelled():
+                setter(value)
+
         loop = future.get_loop()
         if loop is not io_loop.asyncio_loop and loop.is_running():
             # the caller waits in another thread
-            loop.call_soon_threadsafe(setter, value)
+            loop.call_soon_threadsafe(settle)
         else:
-            setter(value)
+            settle()
 
     io_loop.add_callback(execute)
 
diff --git a/jaeger_client/reporter.py b/jaeger_client/reporter.py
index f87d404..6817b19 100644
--- a/jaeger_client/reporter.py
+++ b/jaeger_client/reporter.py
@@ -289,7 +289,7 @@ class CompositeReporter(BaseReporter):
         def on_close(_):
             with lock:
                 count[0] += 1
-                if count[0] == len(self.reporters):
+                if count[0] == len(self.reporters) and not future.cancelled():
                     future.set_result(True)
 
         for reporter in self.reporters:
-- 
2.43.0


From 2b42aaa5a40f73ec286028eff7a62cb77b670e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 33/34] fix: ask the throttler for the empty operation name of
 a debug span without a name

The span has the operation name '', as the sampler is asked for; None became
the operation 'None' in requests for credits.
---
 jaeger_client/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaeger_client/tracer.py b/jaeger_client/tracer.py
index abbd5ec..1433f45 100644
--- a/jaeger_client/tracer.py
+++ b/jaeger_client/tracer.py
@@ -195,7 +195,7 @@ class Tracer(opentracing.Tracer):
                     tags = tags or {}
                     for k, v in sampler_tags.items():
                         tags[k] = v
-            elif self.is_debug_allowed(operation_name):
+            elif self.is_debug_allowed(operation_name or ''):
                 flags = SAMPLED_FLAG | DEBUG_FLAG
                 tags = tags or {}
                 tags[self.debug_id_header] = parent.debug_id
-- 
2.43.0


From 816690420aef8500edb43fc0961e9e2ccca34542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 34/34] fix: closing completes when the caller's event loop
 starts or is closed meanwhile

---
 jaeger_client/ioloop_util.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/jaeger_client/ioloop_util.py b/jaeger_client/ioloop_util.py
index 3e9720f..63c7e70 100644
--- a/jaeger_client/ioloop_util.py
+++ b/jaeger_client/ioloop_util.py
@@ -76,11 +76,21 @@ def submit(fn, io_loop, *args, **kwargs):
                 setter(value)
 
         loop = future.get_loop()
-        if loop is not io_loop.asyncio_loop and loop.is_running():
-            # the caller waits in another thread
-            loop.call_soon_threadsafe(settle)
-        else:
+        if loop is io_loop.asyncio_loop:
             settle()
+            return
+        try:
+            if loop.is_running():
+                # the caller waits in another thread
+                loop.call_soon_threadsafe(settle)
+            else:
+                settle()
+                # the loop may have been started in the meantime
+                loop.call_soon_threadsafe(lambda: None)
+        except RuntimeError:
+            # nobody waits in an event loop that was closed
+            if not loop.is_closed():
+                raise
 
     io_loop.add_callback(execute)
 
-- 
2.43.0

