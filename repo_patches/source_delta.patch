From e7b54776231812dfd5bada5219c949334d0b900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:31 +0000
Subject: [PATCH 01/33] fix: discard gauge and meter messages with a
 non-numeric value

process_gauge_metric and process_meter_metric logged the bad line but then
fell through to compose_*_metric with an unbound value.
---
 txstatsd/server/processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 425a0b9..7655c03 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -194,7 +194,7 @@ class MessageProcessor(BaseMessageProcessor):
         try:
             value = float(values[0])
         except (TypeError, ValueError):
-            self.fail(message)
+            return self.fail(message)
 
         self.compose_gauge_metric(key, value)
 
@@ -210,7 +210,7 @@ class MessageProcessor(BaseMessageProcessor):
         try:
             value = float(values[0])
         except (TypeError, ValueError):
-            self.fail(message)
+            return self.fail(message)
 
         self.compose_meter_metric(key, value)
 
-- 
2.43.0


From 5aa38a28bad6298b4153a75512a991667357b9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:31 +0000
Subject: [PATCH 02/33] fix: discard counter messages with an unusable sample
 rate

A rate of 0 raised ZeroDivisionError and one such as 1.2.3 raised
ValueError out of process(); trailing garbage was silently accepted.
---
 txstatsd/server/processor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 7655c03..43a4ea2 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -32,7 +32,7 @@ from txstatsd.metrics.metermetric import MeterMetricReporter
 SPACES = re.compile("\s+")
 SLASHES = re.compile("\/+")
 NON_ALNUM = re.compile("[^a-zA-Z_\-0-9\.]")
-RATE = re.compile("^@([\d\.]+)")
+RATE = re.compile("^@([\d\.]+)$")
 
 
 def normalize_key(key):
@@ -177,7 +177,12 @@ class MessageProcessor(BaseMessageProcessor):
             match = RATE.match(composite[2])
             if match is None:
                 return self.fail(message)
-            rate = match.group(1)
+            try:
+                rate = float(match.group(1))
+            except ValueError:
+                return self.fail(message)
+            if not rate > 0:
+                return self.fail(message)
 
         self.compose_counter_metric(key, value, rate)
 
-- 
2.43.0


From 1fefd24b3672ef527835191aab0cdc1daec89cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:54 +0000
Subject: [PATCH 03/33] fix: discard plugin messages the plugin metric cannot
 parse

A malformed SLI value or size raised ValueError out of process(), and left
behind a metric that was then reported for ever.
---
 txstatsd/server/processor.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 43a4ea2..8c0c906 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -146,13 +146,17 @@ class MessageProcessor(BaseMessageProcessor):
         return "stats." + kind
 
     def process_plugin_metric(self, metric_type, key, items, message):
-        if not key in self.plugin_metrics:
+        metric = self.plugin_metrics.get(key)
+        if metric is None:
             factory = self.plugins[metric_type]
             metric = factory.build_metric(
                 self.get_message_prefix(factory.name),
                 name=key, wall_time_func=self.time_function)
-            self.plugin_metrics[key] = metric
-        self.plugin_metrics[key].process(items)
+        try:
+            metric.process(items)
+        except (TypeError, ValueError):
+            return self.fail(message)
+        self.plugin_metrics[key] = metric
 
     def process_timer_metric(self, key, duration, message):
         try:
-- 
2.43.0


From 32731f2ba6ac94a67b11f7b13229f3a4b84dbb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:54 +0000
Subject: [PATCH 04/33] fix: do not feed a plugin metric samples of another
 plugin's type

plugin_metrics is keyed by name alone, so a sample was handed to whichever
plugin had claimed the name first.
---
 txstatsd/server/processor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 8c0c906..a22c18c 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -104,6 +104,7 @@ class MessageProcessor(BaseMessageProcessor):
 
         self.plugins = {}
         self.plugin_metrics = {}
+        self.plugin_types = {}
 
         if plugins is not None:
             for plugin in plugins:
@@ -146,6 +147,8 @@ class MessageProcessor(BaseMessageProcessor):
         return "stats." + kind
 
     def process_plugin_metric(self, metric_type, key, items, message):
+        if self.plugin_types.get(key, metric_type) != metric_type:
+            return self.fail(message)
         metric = self.plugin_metrics.get(key)
         if metric is None:
             factory = self.plugins[metric_type]
@@ -157,6 +160,7 @@ class MessageProcessor(BaseMessageProcessor):
         except (TypeError, ValueError):
             return self.fail(message)
         self.plugin_metrics[key] = metric
+        self.plugin_types[key] = metric_type
 
     def process_timer_metric(self, key, duration, message):
         try:
-- 
2.43.0


From e674a2daa28ceabfec45552647eac7878400d0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:54 +0000
Subject: [PATCH 05/33] fix: discard samples that are not finite numbers

float() accepts nan and inf. One such counter sample made every later flush
of the configurable processor raise in math.trunc, and one such sample
spoils the timer, gauge and meter aggregates of its key for good.
---
 txstatsd/server/configurableprocessor.py |  4 ++--
 txstatsd/server/processor.py             | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 85f8bb1..2621980 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -25,7 +25,7 @@ from txstatsd.metrics.countermetric import CounterMetricReporter
 from txstatsd.metrics.gaugemetric import GaugeMetricReporter
 from txstatsd.metrics.metermetric import MeterMetricReporter
 from txstatsd.metrics.timermetric import TimerMetricReporter
-from txstatsd.server.processor import MessageProcessor
+from txstatsd.server.processor import MessageProcessor, parse_number
 
 
 class ConfigurableMessageProcessor(MessageProcessor):
@@ -68,7 +68,7 @@ class ConfigurableMessageProcessor(MessageProcessor):
 
     def process_counter_metric(self, key, composite, message):
         try:
-            value = float(composite[0])
+            value = parse_number(composite[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index a22c18c..512b345 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -20,6 +20,7 @@
 # SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 from collections import deque
+import math
 import re
 import time
 import logging
@@ -46,6 +47,14 @@ def normalize_key(key):
     return key
 
 
+def parse_number(value):
+    """Return C{value} as a finite float, or raise C{ValueError}."""
+    number = float(value)
+    if math.isnan(number) or math.isinf(number):
+        raise ValueError("not a finite number: %r" % (value,))
+    return number
+
+
 class BaseMessageProcessor(object):
 
     def process(self, message):
@@ -164,7 +173,7 @@ class MessageProcessor(BaseMessageProcessor):
 
     def process_timer_metric(self, key, duration, message):
         try:
-            duration = float(duration)
+            duration = parse_number(duration)
         except (TypeError, ValueError):
             return self.fail(message)
 
@@ -177,7 +186,7 @@ class MessageProcessor(BaseMessageProcessor):
 
     def process_counter_metric(self, key, composite, message):
         try:
-            value = float(composite[0])
+            value = parse_number(composite[0])
         except (TypeError, ValueError):
             return self.fail(message)
         rate = 1
@@ -205,7 +214,7 @@ class MessageProcessor(BaseMessageProcessor):
             return self.fail(message)
 
         try:
-            value = float(values[0])
+            value = parse_number(values[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
@@ -221,7 +230,7 @@ class MessageProcessor(BaseMessageProcessor):
             return self.fail(message)
 
         try:
-            value = float(values[0])
+            value = parse_number(values[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
-- 
2.43.0


From f8e350ee348278bbb3626040f32b123c477db26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:21 +0000
Subject: [PATCH 06/33] fix: flush a snapshot of the metrics, not the live
 containers

The flush generators are suspended between datapoints while messages are
processed, so a new name arriving mid-flush raised RuntimeError and dropped
the rest of the flush.
---
 txstatsd/server/configurableprocessor.py |  6 +++---
 txstatsd/server/processor.py             | 11 ++++++-----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 2621980..4aae677 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -94,16 +94,16 @@ class ConfigurableMessageProcessor(MessageProcessor):
         self.meter_metrics[key].mark(value)
 
     def flush_counter_metrics(self, interval, timestamp):
-        for metric in self.counter_metrics.itervalues():
+        for metric in self.counter_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_gauge_metrics(self, timestamp):
-        for metric in self.gauge_metrics.itervalues():
+        for metric in self.gauge_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_timer_metrics(self, percent, timestamp):
-        for metric in self.timer_metrics.itervalues():
+        for metric in self.timer_metrics.values():
             messages = metric.report(timestamp)
             yield messages
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 512b345..2559d3d 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -309,7 +309,8 @@ class MessageProcessor(BaseMessageProcessor):
                 yield metric
 
     def flush_counter_metrics(self, interval, timestamp):
-        for key, count in self.counter_metrics.iteritems():
+        for key in self.counter_metrics.keys():
+            count = self.counter_metrics[key]
             self.counter_metrics[key] = 0
 
             value = count / interval
@@ -318,7 +319,7 @@ class MessageProcessor(BaseMessageProcessor):
 
     def flush_timer_metrics(self, percent, timestamp):
         threshold_value = ((100 - percent) / 100.0)
-        for key, timers in self.timer_metrics.iteritems():
+        for key, timers in self.timer_metrics.items():
             count = len(timers)
             if count > 0:
                 self.timer_metrics[key] = []
@@ -346,19 +347,19 @@ class MessageProcessor(BaseMessageProcessor):
                              for item, value in items.iteritems())
 
     def flush_gauge_metrics(self, timestamp):
-        for metric in self.gauge_metrics:
+        for metric in list(self.gauge_metrics):
             value = metric[0]
             key = metric[1]
 
             yield ((self.gauge_prefix + key + ".value", value, timestamp),)
 
     def flush_meter_metrics(self, timestamp):
-        for metric in self.meter_metrics.itervalues():
+        for metric in self.meter_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_plugin_metrics(self, interval, timestamp):
-        for metric in self.plugin_metrics.itervalues():
+        for metric in self.plugin_metrics.values():
             messages = metric.flush(interval, timestamp)
             yield messages
 
-- 
2.43.0


From fd0bc0b2b8f2005c7de04cbdd1fb85ce6fe0b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:21 +0000
Subject: [PATCH 07/33] fix: take the receive statistics atomically when they
 are flushed

They were cleared only after the generator had been suspended, so messages
received meanwhile were dropped from them, and one of a new type raised.
---
 txstatsd/server/processor.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 2559d3d..1c9ed2a 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -379,17 +379,16 @@ class MessageProcessor(BaseMessageProcessor):
                     (value, name, duration))
             self.last_flush_duration += duration
 
+        process_timings, self.process_timings = self.process_timings, {}
+        by_type, self.by_type = self.by_type, {}
         self.last_process_duration = 0
-        for metric_type, duration in self.process_timings.iteritems():
+        for metric_type, duration in process_timings.iteritems():
             yield ((self.internal_metrics_prefix +
                     "receive.%s.count" %
-                    metric_type, self.by_type[metric_type], timestamp),
+                    metric_type, by_type[metric_type], timestamp),
                    (self.internal_metrics_prefix +
                     "receive.%s.duration" %
                     metric_type, duration * 1000, timestamp))
             log.msg("Processing %d %s metrics took %.6f" %
-                    (self.by_type[metric_type], metric_type, duration))
+                    (by_type[metric_type], metric_type, duration))
             self.last_process_duration += duration
-
-        self.process_timings.clear()
-        self.by_type.clear()
-- 
2.43.0


From ebfdbaec7dff770c106188586f96a7a78429a5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:21 +0000
Subject: [PATCH 08/33] fix: keep one entry per gauge

Every gauge message appended to a deque that is never drained, so memory and
each flush grew without bound with the number of messages received.
---
 txstatsd/server/processor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 1c9ed2a..d55a8a6 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -109,6 +109,7 @@ class MessageProcessor(BaseMessageProcessor):
         self.timer_metrics = {}
         self.counter_metrics = {}
         self.gauge_metrics = deque()
+        self.gauge_index = {}
         self.meter_metrics = {}
 
         self.plugins = {}
@@ -221,8 +222,11 @@ class MessageProcessor(BaseMessageProcessor):
         self.compose_gauge_metric(key, value)
 
     def compose_gauge_metric(self, key, value):
-        metric = [value, key]
-        self.gauge_metrics.append(metric)
+        metric = self.gauge_index.get(key)
+        if metric is None:
+            metric = self.gauge_index[key] = [value, key]
+            self.gauge_metrics.append(metric)
+        metric[0] = value
 
     def process_meter_metric(self, key, composite, message):
         values = composite.split(":")
-- 
2.43.0


From 63fa08fa86bfd1d31b718375d112d1a8162d5132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:22 +0000
Subject: [PATCH 09/33] fix: list the gauges of a configurable processor

get_metric_names unpacked the (value, key) pairs of the compliant processor's
deque; the configurable one keeps a dict, so /list_metrics raised ValueError.
---
 txstatsd/server/configurableprocessor.py | 3 +++
 txstatsd/server/processor.py             | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 4aae677..813edac 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -58,6 +58,9 @@ class ConfigurableMessageProcessor(MessageProcessor):
     def get_message_prefix(self, kind):
         return self.message_prefix
 
+    def get_gauge_names(self):
+        return self.gauge_metrics.keys()
+
     def compose_timer_metric(self, key, duration):
         if not key in self.timer_metrics:
             metric = TimerMetricReporter(
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index d55a8a6..9f5b473 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -125,11 +125,14 @@ class MessageProcessor(BaseMessageProcessor):
         metrics = set()
         metrics.update(self.timer_metrics.keys())
         metrics.update(self.counter_metrics.keys())
-        metrics.update(v for k, v in self.gauge_metrics)
+        metrics.update(self.get_gauge_names())
         metrics.update(self.meter_metrics.keys())
         metrics.update(self.plugin_metrics.keys())
         return list(metrics)
 
+    def get_gauge_names(self):
+        return [key for value, key in self.gauge_metrics]
+
     def process_message(self, message, metric_type, key, fields):
         """
         Process a single entry, adding it to either C{counters}, C{timers},
-- 
2.43.0


From fbf531457db78bbe4974aaec1d80c53f8fb1a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:22 +0000
Subject: [PATCH 10/33] fix: keep the fraction of a flush interval that is not
 whole seconds

The millisecond interval was truncated to seconds: anything under 1000 divided
the counters by zero and flushed in a busy loop, and 1500 gave rates over 1s.
---
 txstatsd/server/processor.py | 4 +++-
 txstatsd/service.py          | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 9f5b473..ae8d09f 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -257,7 +257,9 @@ class MessageProcessor(BaseMessageProcessor):
         """
         per_metric = {}
         num_stats = 0
-        interval = interval / 1000
+        interval, milliseconds = divmod(interval, 1000)
+        if milliseconds:
+            interval += milliseconds / 1000.0
         timestamp = int(self.time_function())
 
         start = self.time_function()
diff --git a/txstatsd/service.py b/txstatsd/service.py
index db2e237..581d4d2 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -233,7 +233,7 @@ class StatsDService(Service):
         self.coop.coiterate(doWork())
 
     def startService(self):
-        self.flush_task.start(self.flush_interval / 1000, False)
+        self.flush_task.start(self.flush_interval / 1000.0, False)
 
     def stopService(self):
         if self.flush_task.running:
@@ -311,7 +311,7 @@ def createService(options, reactor=None):
     reporting.setServiceParent(root_service)
 
     reporting.schedule(report_client_manager_stats,
-                       options["flush-interval"] / 1000,
+                       options["flush-interval"] / 1000.0,
                        metrics.gauge)
 
     if options["report"] is not None:
-- 
2.43.0


From cbe123e0162af95cde5f0759fd5ed1e220c75640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:22 +0000
Subject: [PATCH 11/33] fix: report the flush and process durations to /status
 in milliseconds

They were accumulated in seconds and compared with the flush interval, which
is in milliseconds, so the overload check could never fire.
---
 txstatsd/server/processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index ae8d09f..a1b0543 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -386,7 +386,7 @@ class MessageProcessor(BaseMessageProcessor):
                     duration * 1000, timestamp))
             log.msg("Flushed %d %s metrics in %.6f" %
                     (value, name, duration))
-            self.last_flush_duration += duration
+            self.last_flush_duration += duration * 1000
 
         process_timings, self.process_timings = self.process_timings, {}
         by_type, self.by_type = self.by_type, {}
@@ -400,4 +400,4 @@ class MessageProcessor(BaseMessageProcessor):
                     metric_type, duration * 1000, timestamp))
             log.msg("Processing %d %s metrics took %.6f" %
                     (by_type[metric_type], metric_type, duration))
-            self.last_process_duration += duration
+            self.last_process_duration += duration * 1000
-- 
2.43.0


From 061576c35cafdef1be9dfecd0be1dafa9f4bef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:22 +0000
Subject: [PATCH 12/33] fix: build the histogram of a sample whose values are
 all equal

The range is zero then, and so with a single value: ZeroDivisionError, and
a 500 from the timer's HTTP resource.
---
 txstatsd/metrics/histogrammetric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txstatsd/metrics/histogrammetric.py b/txstatsd/metrics/histogrammetric.py
index 11cd1b1..5bef145 100644
--- a/txstatsd/metrics/histogrammetric.py
+++ b/txstatsd/metrics/histogrammetric.py
@@ -183,7 +183,9 @@ class HistogramMetricReporter(object):
         value_range = max_value - min_value
 
         for value in values:
-            pos = int(((value - min_value) / value_range) * n_bins)
+            pos = 0
+            if value_range > 0:
+                pos = int(((value - min_value) / value_range) * n_bins)
             if pos == n_bins:
                 pos -= 1
 
-- 
2.43.0


From 644399695490e67c573cbfce16dec047a7a28f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:22 +0000
Subject: [PATCH 13/33] fix: never divide a sample's priority by zero

random() may return 0.0, but never 1.0.
---
 txstatsd/stats/exponentiallydecayingsample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/txstatsd/stats/exponentiallydecayingsample.py b/txstatsd/stats/exponentiallydecayingsample.py
index a02dca1..d619eb2 100644
--- a/txstatsd/stats/exponentiallydecayingsample.py
+++ b/txstatsd/stats/exponentiallydecayingsample.py
@@ -83,7 +83,8 @@ class ExponentiallyDecayingSample(object):
         if now >= self.next_scale_time:
             self.rescale(now, self.next_scale_time)
 
-        priority = exp(self.alpha * (timestamp - self.start_time)) / random()
+        priority = exp(self.alpha * (timestamp - self.start_time)) / (
+            1.0 - random())
         values = self._values
 
         if self.count < self.reservoir_size:
-- 
2.43.0


From 987f1f9ca905f264c780eb8043a11df49e2415b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:22 +0000
Subject: [PATCH 14/33] fix: never report a negative rate

A metric is created at a fractional wall time and reported at a whole second,
which can be the earlier of the two, as it is when the clock is set back.
---
 txstatsd/metrics/metermetric.py | 2 +-
 txstatsd/metrics/timermetric.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/metrics/metermetric.py b/txstatsd/metrics/metermetric.py
index 990943e..35f04da 100644
--- a/txstatsd/metrics/metermetric.py
+++ b/txstatsd/metrics/metermetric.py
@@ -87,7 +87,7 @@ class MeterMetricReporter(object):
         """
         poll_prev, self.poll_time = self.poll_time, timestamp
 
-        if self.poll_time == poll_prev:
+        if self.poll_time <= poll_prev:
             return list()
 
         rate = float(self.value) / (self.poll_time - poll_prev)
diff --git a/txstatsd/metrics/timermetric.py b/txstatsd/metrics/timermetric.py
index cfad2f0..6d2e950 100644
--- a/txstatsd/metrics/timermetric.py
+++ b/txstatsd/metrics/timermetric.py
@@ -86,7 +86,7 @@ class TimerMetricReporter(object):
     def rate(self, timestamp):
         """The number of values seen since last clear."""
         dt = (timestamp - self.last_time)
-        if dt == 0:
+        if dt <= 0:
             return 0
         return self.histogram.count / dt
 
-- 
2.43.0


From 7f3f32f7c04249612a569b2e236baa89762c988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:15 +0000
Subject: [PATCH 15/33] fix: resume a TCP redirect that was paused

resumeProducing called the log module, which raised TypeError before the
paused flag was reset, so a redirect dropped every message from its first
full buffer on.
---
 txstatsd/server/router.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 3cd7afb..29ec208 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -139,10 +139,11 @@ class TCPRedirectProtocol(Protocol):
 
     def resumeProducing(self):
         """We can write to the transport again. Yay!."""
-        time_now = int(time.time())
-        log("Resumed TCP redirect. "
-            "Dropped %s messages during %s seconds ",
-                self.dropped, time_now - self.last_paused)
+        if self.last_paused is not None:
+            time_now = int(time.time())
+            log.msg("Resumed TCP redirect. "
+                    "Dropped %s messages during %s seconds " %
+                    (self.dropped, time_now - self.last_paused))
         self.paused = False
         self.dropped = 0
         self.last_paused = None
-- 
2.43.0


From a9640375a87200bada9458e0c8b03c67f5e8a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:48 +0000
Subject: [PATCH 16/33] fix: pass messages through redirect rules when there is
 no service

The placeholder target returned True, which process_message cannot extend its
list of pending messages with.
---
 txstatsd/server/router.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 29ec208..7368b0b 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -261,7 +261,7 @@ class Router(BaseMessageProcessor):
 
     def build_target_redirect_udp(self, host, port):
         if self.service is None:
-            return lambda *args: True
+            return lambda *args: [args]
 
         port = int(port)
         d = defer.Deferred()
@@ -282,7 +282,7 @@ class Router(BaseMessageProcessor):
 
     def build_target_redirect_tcp(self, host, port):
         if self.service is None:
-            return lambda *args: True
+            return lambda *args: [args]
 
         port = int(port)
         d = defer.Deferred()
-- 
2.43.0


From c6c481940efb9a26245a34978dd68ca0af85fc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:48 +0000
Subject: [PATCH 17/33] fix: rebuild a message with its current metric type

A message whose type was changed by set_metric_type was redirected and logged
with the type it had arrived with.
---
 txstatsd/server/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index a1b0543..2cc62ae 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -76,7 +76,7 @@ class BaseMessageProcessor(object):
         return self.process_message(message, metric_type, key, fields)
 
     def rebuild_message(self, metric_type, key, fields):
-        return key + ":" + "|".join(fields)
+        return key + ":" + "|".join(fields[:1] + [metric_type] + fields[2:])
 
     def fail(self, message):
         """Log and discard malformed message."""
-- 
2.43.0


From 45fd5eb30f8e8ce6adfa8e801bab39f7f411da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:48 +0000
Subject: [PATCH 18/33] fix: call a write callback once only

A callback raising TypeError, OverflowError or socket.error was taken for a
failed write and called again, with None.
---
 txstatsd/protocol.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index dfe1be2..255528d 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -104,11 +104,10 @@ class TransportGateway(object):
         """
         try:
             bytes_sent = self.transport.write(data, (self.host, self.port))
-            if callback is not None:
-                callback(bytes_sent)
         except (OverflowError, TypeError, socket.error, socket.gaierror):
-            if callback is not None:
-                callback(None)
+            bytes_sent = None
+        if callback is not None:
+            callback(bytes_sent)
 
 
 class TwistedStatsDClient(object):
-- 
2.43.0


From 88212134637c43d4ed7141fceb276a30edd4bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:48 +0000
Subject: [PATCH 19/33] fix: send distinct samples with the type their plugin
 registers

The server only knows "pd", and discarded every DistinctMetric sample.
---
 txstatsd/metrics/distinctmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/metrics/distinctmetric.py b/txstatsd/metrics/distinctmetric.py
index 7bad3ec..eafde3c 100644
--- a/txstatsd/metrics/distinctmetric.py
+++ b/txstatsd/metrics/distinctmetric.py
@@ -114,7 +114,7 @@ class DistinctMetric(Metric):
 
     def mark(self, item):
         """Report this item was seen."""
-        self.send("%s|d" % item)
+        self.send("%s|pd" % item)
 
 
 class DistinctMetricReporter(object):
-- 
2.43.0


From 3cdb5840102b0c0b45bc720ae830bc4300afc946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:48 +0000
Subject: [PATCH 20/33] fix: let short command line options override the
 configuration file

Only the long names were recorded as overridden, so -l 9000 lost to the
configured listen-port.
---
 txstatsd/service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index 581d4d2..6d1f30b 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -100,7 +100,7 @@ class OptionsGlue(usage.Options):
                 opt = opt[2:]
             else:
                 opt = opt[1:]
-            self.overridden_options.append(opt)
+            self.overridden_options.append(self.synonyms.get(opt, opt))
 
         super(OptionsGlue, self).parseOptions(options=options)
 
-- 
2.43.0


From 3513617ec6bf337f8ab0f9294c080e6fb2b74683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:48 +0000
Subject: [PATCH 21/33] fix: stop the reporting service when one of its tasks
 has died

LoopingCall.stop asserts that it is running; an unwrapped task that had failed
made stopService raise and left the rest running.
---
 txstatsd/report.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/txstatsd/report.py b/txstatsd/report.py
index 6447108..9acb276 100644
--- a/txstatsd/report.py
+++ b/txstatsd/report.py
@@ -88,7 +88,8 @@ class ReportingService(Service):
 
     def stopService(self):
         for task, interval in self.tasks:
-            task.stop()
+            if task.running:
+                task.stop()
         Service.stopService(self)
 
 
-- 
2.43.0


From a370df64b9c6b1fc15e354946fee7ee031948cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:09 +0000
Subject: [PATCH 22/33] fix: call the connect callback once for a client
 created with an IP

The initializer treats an IP address as resolved, and create() then resolved
it again. A redirect_udp rule fires a Deferred in that callback, so the second
call raised AlreadyCalledError.
---
 txstatsd/protocol.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index 255528d..756674b 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -22,6 +22,7 @@
 import socket
 
 from twisted.internet import abstract
+from twisted.internet.defer import succeed
 from twisted.internet.protocol import DatagramProtocol
 from twisted.python import log
 
@@ -171,6 +172,11 @@ class TwistedStatsDClient(object):
         if resolver_errback is None:
             resolver_errback = log.err
 
+        if instance.transport_gateway is not None:
+            # An IP address: the initializer has resolved it already.
+            instance.resolve_later = succeed(host)
+            return instance
+
         instance.resolve_later = reactor.resolve(host)
         instance.resolve_later.addCallbacks(instance.host_resolved,
                                             resolver_errback)
-- 
2.43.0


From ebf262312676ee91ffa12bb330f96347f2bd7ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:09 +0000
Subject: [PATCH 23/33] fix: report the inspector's delay in the reactor thread

The inspector thread called straight into the message processor, which is not
thread safe, while the reactor was processing messages or flushing.
---
 txstatsd/report.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/txstatsd/report.py b/txstatsd/report.py
index 9acb276..2c0dfed 100644
--- a/txstatsd/report.py
+++ b/txstatsd/report.py
@@ -187,12 +187,24 @@ class ReactorInspector(threading.Thread):
                 msg_id += 1
 
 
+class ReactorThreadMetrics(object):
+    """Hand the samples of another thread to the reactor's thread."""
+
+    def __init__(self, reactor, metrics):
+        self.reactor = reactor
+        self.metrics = metrics
+
+    def gauge(self, name, value):
+        self.reactor.callFromThread(self.metrics.gauge, name, value)
+
+
 class ReactorInspectorService(Service):
     """Start/stop the reactor inspector service."""
 
     def __init__(self, reactor, metrics, loop_time=3):
         self.inspector = ReactorInspector(
-            reactor.callFromThread, metrics, loop_time)
+            reactor.callFromThread, ReactorThreadMetrics(reactor, metrics),
+            loop_time)
 
     def startService(self):
         Service.startService(self)
-- 
2.43.0


From 282ea4746217c78cae2d63c971fa05374e2643d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:09 +0000
Subject: [PATCH 24/33] fix: connect to every configured carbon cache

Hosts without a port or a name of their own, from the second on, were silently
left out.
---
 txstatsd/service.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index 6d1f30b..f99a58e 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -302,9 +302,10 @@ def createService(options, reactor=None):
 
     if not options["carbon-cache-host"]:
         options["carbon-cache-host"].append("127.0.0.1")
-    if not options["carbon-cache-port"]:
+    hosts = len(options["carbon-cache-host"])
+    while len(options["carbon-cache-port"]) < hosts:
         options["carbon-cache-port"].append(2004)
-    if not options["carbon-cache-name"]:
+    while len(options["carbon-cache-name"]) < hosts:
         options["carbon-cache-name"].append(None)
 
     reporting = ReportingService(instance_name)
-- 
2.43.0


From 9662804ccd555f3eb6c42e19aed77a627b774aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:09 +0000
Subject: [PATCH 25/33] fix: no leading dot in internal metrics when the prefix
 is empty

That is how txstatsd.conf-example has it.
---
 txstatsd/service.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index f99a58e..e798acb 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -294,7 +294,8 @@ def createService(options, reactor=None):
     else:
         processor = (processor or ConfigurableMessageProcessor)(
             message_prefix=prefix,
-            internal_metrics_prefix=prefix + "." + instance_name + ".",
+            internal_metrics_prefix=(
+                (prefix + "." if prefix else "") + instance_name + "."),
             plugins=plugin_metrics)
         input_router = Router(processor, options['routing'], root_service)
         connection = InternalClient(input_router)
-- 
2.43.0


From 5214410c63263b608bda5266bb66598b144a90b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:09 +0000
Subject: [PATCH 26/33] fix: keep reporting counters after a failure or a new
 counter

An exception ended the generator for good, so every later report was a
StopIteration; a network device that had just appeared raised KeyError.
---
 txstatsd/process.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/txstatsd/process.py b/txstatsd/process.py
index f51e4f0..fb1e467 100644
--- a/txstatsd/process.py
+++ b/txstatsd/process.py
@@ -160,21 +160,16 @@ def report_counters(report_function, *args, **kwargs):
     Report difference between last value and current value for wrapped
     function.
     """
-    def generate():
-        last_value = None
-        while True:
-            result = {}
-            new_value = report_function(*args, **kwargs)
-            if last_value is None:
-                last_value = new_value
-            else:
-                for key, value in new_value.iteritems():
-                    result[key] = value - last_value[key]
-                last_value = new_value
-            yield result
-    generator = generate()
+    last_value = {}
     def report():
-        return generator.next()
+        result = {}
+        new_value = report_function(*args, **kwargs)
+        for key, value in new_value.iteritems():
+            if key in last_value:
+                result[key] = value - last_value[key]
+        last_value.clear()
+        last_value.update(new_value)
+        return result
     update_wrapper(report, report_function)
     return report
 
-- 
2.43.0


From 27736b4f7192a53723be06867e534a45f7d6f974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:09 +0000
Subject: [PATCH 27/33] fix: do not reuse a client metric for another kind of
 metric

The metrics were cached by name alone, so a name used with two kinds was sent
with the type of the first, or raised AttributeError.
---
 txstatsd/metrics/extendedmetrics.py | 21 ++++++-----
 txstatsd/metrics/metrics.py         | 55 ++++++++++++++++-------------
 2 files changed, 43 insertions(+), 33 deletions(-)

diff --git a/txstatsd/metrics/extendedmetrics.py b/txstatsd/metrics/extendedmetrics.py
index 3d4d430..63883e5 100644
--- a/txstatsd/metrics/extendedmetrics.py
+++ b/txstatsd/metrics/extendedmetrics.py
@@ -43,32 +43,35 @@ class ExtendedMetrics(Metrics):
     def increment(self, name, value=1, sample_rate=1):
         """Report and increase in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = ("counter", name)
+        if not key in self._metrics:
             metric = CounterMetric(self.connection,
                                    name,
                                    sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].increment(value)
+            self._metrics[key] = metric
+        self._metrics[key].increment(value)
 
     def decrement(self, name, value=1, sample_rate=1):
         """Report and decrease in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = ("counter", name)
+        if not key in self._metrics:
             metric = CounterMetric(self.connection,
                                    name,
                                    sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].decrement(value)
+            self._metrics[key] = metric
+        self._metrics[key].decrement(value)
 
     def timing(self, name, duration=None, sample_rate=1):
         """Report this sample performed in duration seconds."""
         if duration is None:
             duration = self.calculate_duration()
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = ("timer", name)
+        if not key in self._metrics:
             metric = TimerMetric(self.connection,
                                  name,
                                  sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].mark(duration)
+            self._metrics[key] = metric
+        self._metrics[key].mark(duration)
 
diff --git a/txstatsd/metrics/metrics.py b/txstatsd/metrics/metrics.py
index 66740e4..4d4e87a 100644
--- a/txstatsd/metrics/metrics.py
+++ b/txstatsd/metrics/metrics.py
@@ -60,12 +60,13 @@ class Metrics(object):
         Used for server side plugins without client support.
         """
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = ("generic:" + metric_type, name)
+        if not key in self._metrics:
             metric = GenericMetric(self.connection,
                                         metric_type,
                                         name)
-            self._metrics[name] = metric
-        self._metrics[name].mark(value, extra)
+            self._metrics[key] = metric
+        self._metrics[key].mark(value, extra)
 
     def sli(self, name, duration, size=None):
         """Report a service level metric.
@@ -87,42 +88,46 @@ class Metrics(object):
     def gauge(self, name, value, sample_rate=1):
         """Report an instantaneous reading of a particular value."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = ("gauge", name)
+        if not key in self._metrics:
             gauge_metric = GaugeMetric(self.connection,
                                        name,
                                        sample_rate)
-            self._metrics[name] = gauge_metric
-        self._metrics[name].mark(value)
+            self._metrics[key] = gauge_metric
+        self._metrics[key].mark(value)
 
     def meter(self, name, value=1, sample_rate=1):
         """Mark the occurrence of a given number of events."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = ("meter", name)
+        if not key in self._metrics:
             meter_metric = MeterMetric(self.connection,
                                        name,
                                        sample_rate)
-            self._metrics[name] = meter_metric
-        self._metrics[name].mark(value)
+            self._metrics[key] = meter_metric
+        self._metrics[key].mark(value)
 
     def increment(self, name, value=1, sample_rate=1):
         """Report and increase in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = ("counter", name)
+        if not key in self._metrics:
             metric = Metric(self.connection,
                             name,
                             sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].send("%s|c" % value)
+            self._metrics[key] = metric
+        self._metrics[key].send("%s|c" % value)
 
     def decrement(self, name, value=1, sample_rate=1):
         """Report and decrease in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = ("counter", name)
+        if not key in self._metrics:
             metric = Metric(self.connection,
                             name,
                             sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].send("%s|c" % -value)
+            self._metrics[key] = metric
+        self._metrics[key].send("%s|c" % -value)
 
     def reset_timing(self):
         """Resets the duration timer for the next call to timing()"""
@@ -142,26 +147,28 @@ class Metrics(object):
         if duration is None:
             duration = self.calculate_duration()
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = ("timer", name)
+        if not key in self._metrics:
             metric = Metric(self.connection,
                             name,
                             sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].send("%s|ms" % (duration * 1000))
+            self._metrics[key] = metric
+        self._metrics[key].send("%s|ms" % (duration * 1000))
 
     def distinct(self, name, item):
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = ("distinct", name)
+        if not key in self._metrics:
             metric = DistinctMetric(self.connection, name)
-            self._metrics[name] = metric
-        self._metrics[name].mark(item)
+            self._metrics[key] = metric
+        self._metrics[key].mark(item)
 
     def clear(self, name):
         """Allow the metric to re-initialize its internal state."""
         name = self.fully_qualify_name(name)
-        if name in self._metrics:
-            metric = self._metrics[name]
-            if getattr(metric, 'clear', None) is not None:
+        for (kind, metric_name), metric in self._metrics.items():
+            if (metric_name == name and
+                    getattr(metric, 'clear', None) is not None):
                 metric.clear()
 
     def fully_qualify_name(self, name):
-- 
2.43.0


From f42635df3a2b15b07e66f337db93f8d7bd445cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:03 +0000
Subject: [PATCH 28/33] fix: identify a Twisted client by the host it was
 configured with

As UdpStatsDClient does: the consistent hash ring is computed from it, and
gave another distribution once the host had been resolved.
---
 txstatsd/protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index 756674b..5ffcfde 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -131,7 +131,7 @@ class TwistedStatsDClient(object):
 
         self.reactor = reactor
 
-        self.host = host
+        self.original_host = self.host = host
         self.port = port
         self.connect_callback = connect_callback
         self.disconnect_callback = disconnect_callback
@@ -144,7 +144,7 @@ class TwistedStatsDClient(object):
             self.host_resolved(host)
 
     def __str__(self):
-        return "%s:%d" % (self.host, self.port)
+        return "%s:%d" % (self.original_host, self.port)
 
     @classmethod
     def create(cls, host, port, connect_callback=None,
-- 
2.43.0


From 75dce4c8ee1ef90c3a70ff9c197748e73512f205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:27 +0000
Subject: [PATCH 29/33] fix: stop a redirect connection that is still being
 attempted

stopService only closed a connection that had been established; one that was
still being attempted was completed after the service had been stopped.
---
 txstatsd/server/router.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 7368b0b..3de9744 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -74,18 +74,20 @@ class TCPRedirectService(Service):
         self.host = host
         self.port = port
         self.factory = factory
+        self.connector = None
         if reactor is None:
             from twisted.internet import reactor
         self.reactor = reactor
 
     def startService(self):
-        self.reactor.connectTCP(self.host, self.port, self.factory)
+        self.connector = self.reactor.connectTCP(
+            self.host, self.port, self.factory)
         return Service.startService(self)
 
     def stopService(self):
         self.factory.stopTrying()
-        if self.factory.protocol:
-            self.factory.protocol.transport.loseConnection()
+        if self.connector is not None:
+            self.connector.disconnect()
         return Service.stopService(self)
 
 
-- 
2.43.0


From 92609f7b9429f24320489f189465ee880e238a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:47 +0000
Subject: [PATCH 30/33] fix: order ring entries at one position by the nodes'
 names

Entries with equal positions were compared by the nodes' addresses, so the
node chosen for a metric could differ between processes.
---
 txstatsd/hashing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/txstatsd/hashing.py b/txstatsd/hashing.py
index c823914..79c5ed8 100644
--- a/txstatsd/hashing.py
+++ b/txstatsd/hashing.py
@@ -42,12 +42,14 @@ class ConsistentHashRing:
         for i in range(self.replica_count):
             replica_key = "%s:%d" % (node, i)
             position = self.compute_ring_position(replica_key)
-            entry = (position, node)
+            # Nodes at the same position are told apart by their identity, not
+            # by their address in memory, which differs between processes.
+            entry = (position, str(node), node)
             bisect.insort(self.ring, entry)
 
     def remove_node(self, node):
         self.nodes.discard(node)
-        self.ring = [entry for entry in self.ring if entry[1] != node]
+        self.ring = [entry for entry in self.ring if entry[-1] != node]
 
     def get_node(self, key):
         assert self.ring
@@ -55,7 +57,7 @@ class ConsistentHashRing:
         search_entry = (position, None)
         index = bisect.bisect_left(self.ring, search_entry) % len(self.ring)
         entry = self.ring[index]
-        return entry[1]
+        return entry[-1]
 
     def get_nodes(self, key):
         nodes = []
@@ -65,7 +67,7 @@ class ConsistentHashRing:
         last_index = (index - 1) % len(self.ring)
         while len(nodes) < len(self.nodes) and index != last_index:
             next_entry = self.ring[index]
-            (position, next_node) = next_entry
+            next_node = next_entry[-1]
             if next_node not in nodes:
                 nodes.append(next_node)
             index = (index + 1) % len(self.ring)
-- 
2.43.0


From 0a42cd7c84ce2dd0c1d857736265b3844a09bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:26 +0000
Subject: [PATCH 31/33] fix: report psutil's virtual size as vsize and resident
 size as rss

---
 txstatsd/process.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/txstatsd/process.py b/txstatsd/process.py
index fb1e467..0a297e2 100644
--- a/txstatsd/process.py
+++ b/txstatsd/process.py
@@ -110,7 +110,10 @@ class ProcessReport(object):
 
     def get_memory_and_cpu(self, prefix="proc"):
         """Report memory and CPU stats for C{process}."""
-        vsize, rss = self.process.memory_info()
+        memory = self.process.memory_info()
+        # psutil names its figures, and gives the resident size first.
+        vsize = getattr(memory, "vms", memory[0])
+        rss = getattr(memory, "rss", memory[1])
         result = {prefix + ".cpu.percent": self.process.cpu_percent(),
                   prefix + ".memory.percent":
                     self.process.memory_percent(),
-- 
2.43.0


From c228e361d6ca344d4e844af66d90c08253927e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:26 +0000
Subject: [PATCH 32/33] fix: do not restart the variance when the mean is -1

---
 txstatsd/metrics/histogrammetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/metrics/histogrammetric.py b/txstatsd/metrics/histogrammetric.py
index 5bef145..c46008f 100644
--- a/txstatsd/metrics/histogrammetric.py
+++ b/txstatsd/metrics/histogrammetric.py
@@ -216,7 +216,7 @@ class HistogramMetricReporter(object):
     def update_variance(self, value):
         old_values = self.variance
         new_values = [0.0, 0.0]
-        if old_values[0] == -1:
+        if self.count <= 1:
             new_values[0] = value
             new_values[1] = 0.0
         else:
-- 
2.43.0


From 1afae73bf302e6ee4a3e3fc9c2ce2a10b394c3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:04 +0000
Subject: [PATCH 33/33] fix: get_nodes lists the node whose only entry precedes
 the name's

The walk over the ring stopped one entry short of a full turn.
---
 txstatsd/hashing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/txstatsd/hashing.py b/txstatsd/hashing.py
index 79c5ed8..67edf1a 100644
--- a/txstatsd/hashing.py
+++ b/txstatsd/hashing.py
@@ -64,11 +64,11 @@ class ConsistentHashRing:
         position = self.compute_ring_position(key)
         search_entry = (position, None)
         index = bisect.bisect_left(self.ring, search_entry) % len(self.ring)
-        last_index = (index - 1) % len(self.ring)
-        while len(nodes) < len(self.nodes) and index != last_index:
-            next_entry = self.ring[index]
+        # Once around the ring, the entry before the first one included.
+        for next_entry in self.ring[index:] + self.ring[:index]:
+            if len(nodes) == len(self.nodes):
+                break
             next_node = next_entry[-1]
             if next_node not in nodes:
                 nodes.append(next_node)
-            index = (index + 1) % len(self.ring)
         return nodes
-- 
2.43.0

