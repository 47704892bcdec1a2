"""Writes /verif/properties.jsonl.  Kept as code because the statements are long."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

PROC = "txstatsd/server/processor.py"
CONF = "txstatsd/server/configurableprocessor.py"
LOGP = "txstatsd/server/loggingprocessor.py"
ROUT = "txstatsd/server/router.py"
SERV = "txstatsd/service.py"
PROT = "txstatsd/server/protocol.py"
CLI = "txstatsd/client.py"
TCLI = "txstatsd/protocol.py"
HTTP = "txstatsd/server/httpinfo.py"
REP = "txstatsd/report.py"
PSTAT = "txstatsd/process.py"
MET = "txstatsd/metrics/"

prop("C01", "A malformed message is discarded, logged once, and changes no metric",
     "Whatever string is handed to the server as a message, no exception escapes its processing. "
     "A message that is not well-formed (missing separators, fewer than two or more than three fields, unknown type, a counter, timer, gauge or meter value that is not a finite number, a counter sample rate that is not a positive number in the compliant processor, an SLI value or size that does not parse, a plugin sample for a name already owned by another plugin) is logged as a bad line exactly once. "
     "Such a message creates no metric and changes no aggregated value.",
     ["inputs", "histories"],
     "every message string, against every state the compliant, the configurable and the logging processor can be in, with the bundled plugins installed",
     "The tests feed about a dozen malformed strings to fresh processors; the property is over all strings and all prior states, and one escaping exception or half-applied sample among them is enough to break it.",
     [PROC, CONF, LOGP, MET + "slimetric.py", MET + "distinctmetric.py"],
     [("parsing and dispatch of a message", PROC + " BaseMessageProcessor.process, MessageProcessor.process_message"),
      ("per type parsing", PROC + " process_*_metric; " + CONF + " process_counter_metric"),
      ("bad line log", PROC + " BaseMessageProcessor.fail")],
     ["return or exception of process(message)", "the log", "the next flush"])
prop("C02", "A well-formed sample updates the aggregate of its own name and type only",
     "A well-formed message changes the aggregate of the metric with its own normalised name and its own type, and no other metric. "
     "A compliant counter grows by the value divided by the sample rate; a configurable counter and any gauge become the value; a meter grows by the value; a timer gains the value as one sample; a plugin metric processes the message's fields once. "
     "Processing it adds one to the received count of its type.",
     ["inputs", "histories"],
     "every well-formed message, every name, every value and rate, and both the first and any later sample of a name",
     "Tests check a few literal values on empty processors; they do not relate the value, the rate, the name and the type of an arbitrary message to the state change it makes.",
     [PROC, CONF, MET + "metermetric.py", MET + "countermetric.py", MET + "gaugemetric.py", MET + "timermetric.py"],
     [("aggregation", PROC + " compose_*_metric, process_plugin_metric; " + CONF + " compose_*_metric"),
      ("reporters", MET + "*metric.py mark/update/process")],
     ["the next flush", "the processor's metric tables"])
prop("C03", "Metric names are normalised to characters graphite accepts",
     "The name under which any message is aggregated contains only ASCII letters, digits, underscore, dash and dot. "
     "It is the received name with each run of whitespace replaced by one underscore, each run of slashes by one dash, and every other character outside that set removed; characters inside the set are kept unchanged and in order. "
     "No message reaches the routing rules or an aggregate under a name that has not been normalised; what an operator's own rewrite rule makes of a name is kept as it is.",
     ["inputs"], "every byte string a client can send as a metric name",
     "Tests try three names; the claim is about every character and every place where a name enters the system.",
     [PROC, ROUT], [("normalisation", PROC + " normalize_key, SPACES, SLASHES, NON_ALNUM"),
                    ("single entry point", PROC + " BaseMessageProcessor.process")],
     ["paths sent to carbon"])
prop("C04", "Every flushed datapoint is a well-placed path, value, timestamp triple",
     "Every item a flush yields is a (path, value, timestamp) triple, in that order, and all items of one flush carry the same whole-second timestamp, read when the flush starts. "
     "Its path is the prefix for its kind and configuration (stats., stats_counts., stats.timers., stats.gauge., stats.meter. in compliant mode; the configured message prefix otherwise), the metric's own name, and the suffix of the statistic, with a single dot between them and no leading dot. "
     "Every metric with something to report is reported with all of its statistics.",
     ["inputs", "histories", "configurations"],
     "every set of metrics, every prefix including none, every time at which a flush starts and however long it takes",
     "Tests compare flushes of one or two metrics at a fixed fake time, so a time re-read halfway, swapped tuple members or a path built from the wrong name on some branch goes unnoticed.",
     [PROC, CONF, MET + "countermetric.py", MET + "gaugemetric.py", MET + "metermetric.py", MET + "timermetric.py", MET + "slimetric.py", MET + "distinctmetric.py"],
     [("flush generators", PROC + " flush, flush_*_metrics; " + CONF + " flush_*_metrics"),
      ("reporters", MET + "* report/flush")],
     ["items yielded by flush()"])
prop("C05", "Each sample is reported in exactly one flush",
     "Every counter, timer, meter and SLI sample contributes to exactly one flush of its metric, even when messages are processed while a flush is suspended between two datapoints. "
     "Resetting an aggregate never discards a sample that the same flush has not reported, and an aggregate that has been reported is reset before the flush is suspended. "
     "The same holds for the per-type receive counts and durations.",
     ["schedules", "histories"],
     "every interleaving of message processing with the suspension points of a flush, for every set of metrics",
     "Tests drain the flush generator in one go, so no message ever arrives between reading an aggregate and resetting it.",
     [PROC, CONF, MET + "metermetric.py", MET + "timermetric.py", MET + "slimetric.py"],
     [("take and reset without a suspension point in between", PROC + " flush_counter_metrics, flush_timer_metrics, flush_metrics_summary; reporters' report/flush"),
      ("cooperative flush", SERV + " StatsDService.flushProcessor")],
     ["sums over consecutive flushes"])
prop("C06", "A message arriving during a flush never breaks the flush",
     "A flush that is suspended between two datapoints can be resumed after any messages have been processed, including ones that introduce names or types not seen before. "
     "It then completes without an exception and reports every metric that existed when it reached the metrics of that kind.",
     ["schedules"],
     "every interleaving of new names of every type with every suspension point of a flush",
     "Tests exhaust the flush generator without processing messages in between.",
     [PROC, CONF], [("iteration over snapshots", PROC + " flush_*_metrics, flush_metrics_summary; " + CONF + " flush_*_metrics")],
     ["exceptions out of the flush generator"])
prop("C07", "Intervals, rates and durations use the right unit at every boundary",
     "The flush interval is in milliseconds: flushes and the carbon client statistics run every interval/1000 seconds without truncation, and a compliant counter's rate is its count divided by interval/1000 for every positive interval. "
     "Client timings are given in seconds and sent in milliseconds. "
     "Flush and receive durations are reported in milliseconds, both as datapoints and to the status page, which compares them with the flush interval in the same unit.",
     ["inputs", "configurations"], "every flush interval, including those that are not whole seconds, every duration and every count",
     "Tests use intervals that are multiples of one second, and dummies without units for the status page.",
     [PROC, SERV, HTTP, MET + "metrics.py", MET + "timermetric.py", MET + "extendedmetrics.py"],
     [("conversions", PROC + " flush, flush_metrics_summary; " + SERV + " StatsDService.startService, createService; " + MET + "timermetric.py TimerMetric.mark; " + HTTP + " Status")],
     ["schedule intervals", "datapoints", "/status"])
prop("C08", "The server's own statistics account for every flush and message",
     "Each flush reports, under the internal prefix, the total number of metric groups flushed and, for each of counter, timer, gauge, meter and plugin, the number of groups flushed and how long that took; the total is the sum of the five. "
     "For each message type received since the previous flush it reports how many were received and how long they took. "
     "The durations published for the status page are the totals of those of the latest flush.",
     ["inputs", "histories"], "every number of metrics of each kind and every number of messages of each type",
     "Tests check one metric of one kind at a time against a fake clock that does not advance.",
     [PROC], [("accounting", PROC + " flush, flush_metrics_summary, process_message")], ["internal datapoints", "/status"])
prop("C09", "Server and transport state is touched only from the reactor thread",
     "Code that runs in another thread (the reactor inspector, or any application thread using the Twisted client) reaches the message processor, a metrics object or a transport only by scheduling a call in the reactor thread. "
     "The callback of a client write is called in the reactor thread too.",
     ["schedules"], "every interleaving of the inspector thread or application threads with the reactor thread",
     "The tests run the inspector against a fake metrics object and cannot exhibit a data race.",
     [REP, TCLI], [("hand over to the reactor", REP + " ReactorInspectorService, ReactorThreadMetrics; " + TCLI + " TransportGateway.write")],
     ["thread in which calls are made"])
prop("C10", "Sending a metric never raises or blocks because of the network",
     "Writing through the plain UDP client returns normally when it is not connected, when it has no address, and when the operating system refuses or fails the send; its socket is non-blocking from the moment it is used. "
     "A send that fails in the Twisted client is reported to the write's callback as None instead of raising. "
     "The callback of a Twisted write is called exactly once, with the result of the send.",
     ["fault_sequences", "inputs"], "every socket or transport failure at every send, and every connection state",
     "Tests do not inject socket errors into a write, nor callbacks that fail.",
     [CLI, TCLI], [("error handling", CLI + " UdpStatsDClient.write, connect; " + TCLI + " TransportGateway._write")],
     ["exceptions out of write()", "callback calls"])
prop("C11", "The Twisted client queues until it can send, then sends in order",
     "A message written before the client is both resolved and connected, or after it has been disconnected, is queued; when both hold again, all queued messages are sent once each, in the order written, each with its own callback. "
     "A message is dropped only when the queue holds its limit, and then it is the newest that is dropped. "
     "The connect callback is called once when the host is resolved, also for a client created with an IP address, and the address used for sending is the resolved one.",
     ["schedules", "histories"], "every order of resolving, connecting, disconnecting and writing",
     "Tests exercise the happy orders one by one; the property is about all orders of four events and about what each leaves queued.",
     [TCLI], [("queue and gateway", TCLI + " DataQueue, TwistedStatsDClient.write, connect, disconnect, host_resolved, create, _flush_items")],
     ["datagrams sent", "callback calls"])
prop("C12", "Client messages have the form and the type tag the server expects",
     "Every message the client API sends is name:value|type, or name:value|type|@rate exactly when the sample rate is below one, with the namespace and a dot before the name when there is a namespace. "
     "The type is the one the server aggregates that kind of metric under: c for counters, ms for timings, g for gauges, m for meters, sli for service levels, pd for distinct items; it does not depend on what the name was used for before. A sample rate applies from the first use of a name for that kind of metric. "
     "The value sent is the one given: increments and decrements with their sign (running totals in the extended API), an SLI's size as a third field when given.",
     ["inputs", "histories"], "every sequence of client calls with every name, namespace, value and sample rate",
     "Tests call each method once on a fresh object with a sample rate of one.",
     [MET + "metrics.py", MET + "extendedmetrics.py", MET + "metric.py", MET + "countermetric.py", MET + "timermetric.py", MET + "gaugemetric.py", MET + "metermetric.py", MET + "distinctmetric.py"],
     [("composition of messages", MET + "metric.py Metric.send; " + MET + "metrics.py Metrics.*"),
      ("type tags", PROC + " process_message; twisted/plugins/*_plugin.py metric_type")],
     ["data given to connection.write"])
prop("C13", "Consistent hashing depends on node identities and metric names only",
     "The node a metric is sent to is a pure function of the metric's name and of the set of nodes as configured: it does not depend on the process, on the order in which nodes were added, on time or randomness, or on whether a node's host has been resolved yet. "
     "All data of one metric name go to one node, unmodified. "
     "Removing a node moves only the metrics of that node. "
     "The nodes listed for a name are all nodes of the ring, each once, in an order with the same independence that starts with the node the name is sent to and is kept by those left when a node is removed.",
     ["inputs", "histories", "configurations"], "every set of nodes in every order, every metric name, every sequence of additions and removals",
     "Tests fix three names on up to three nodes in one process.",
     ["txstatsd/hashing.py", CLI, TCLI],
     [("ring", "txstatsd/hashing.py ConsistentHashRing.*"), ("client", CLI + " ConsistentHashingClient.write, UdpStatsDClient.__str__; " + TCLI + " TwistedStatsDClient.__str__")],
     ["node chosen"])
prop("C14", "Routing rules apply in order, each to what the rules before it let through",
     "Rules are applied in the order written, each to every message the previous rules produced: a message that does not match a rule passes it unchanged, one that does is replaced by what the target produces. "
     "drop removes it; rewrite and set_metric_type change its path or its type, and with dup also keep the original; redirect_udp and redirect_tcp send it on in its current name, type and fields and let it continue; any, metric_type, path_like and not match as documented. "
     "What remains after the last rule is processed once each, under its current name and type, and an unknown condition or target is refused when the rules are read.",
     ["inputs", "configurations"], "every message against rule lists combining every condition with every target, dup included",
     "Tests check each rule alone on one or two messages; order, pass-through and duplicates interact.",
     [ROUT, PROC], [("rule evaluation", ROUT + " Router.process_message, build_rules, build_condition_*, build_target_*"), ("rebuilding", PROC + " rebuild_message")],
     ["messages processed, sent or dropped"])
prop("C15", "A TCP redirect recovers from back-pressure and frames every message",
     "While the connection is paused by its transport a redirect drops messages and counts them, and as soon as it is resumed it writes again; being resumed never raises. "
     "Every message written ends with exactly one carriage return and line feed. "
     "Each new connection registers as a streaming producer, resets the reconnection delay and becomes the one written to, and stopping the service stops reconnecting and closes the connection.",
     ["fault_sequences", "histories"], "every sequence of connect, pause, resume, write and stop",
     "No test pauses or resumes a redirect, or stops one while it is disconnected.",
     [ROUT], [("producer", ROUT + " TCPRedirectProtocol.*"), ("factory and service", ROUT + " TCPRedirectClientFactory, TCPRedirectService")],
     ["bytes on the connection"])
prop("C16", "Command line beats configuration file, which beats defaults",
     "For every option, a value given on the command line in long or short form is used; otherwise the value of the configuration file, converted to the option's type as on the command line; otherwise the default. "
     "Options that may be repeated accumulate the values of every carbon-cache section of the file, and plugin sections are passed on unchanged. "
     "Every declared option has an effect.",
     ["configurations"], "every combination of command line, configuration file and defaults, for every option",
     "Tests override a single long option of a toy option class.",
     [SERV], [("options", SERV + " OptionsGlue.parseOptions, configure, _coerce_option; StatsDOptions")], ["values read by createService"])
prop("C17", "The service is wired as configured",
     "For every configuration, the UDP listener, the optional TCP listener, the flush and the server's own metrics all use one router in front of one message processor of the configured kind, with all plugins configured and installed, and the monitor message and response are given to both listeners. "
     "Datapoints can go to every configured carbon cache: each host is connected with its own port and name, with defaults for those not given, and queue limits are set from the options. "
     "Requested reports are scheduled, and the HTTP service is present exactly when a port is configured.",
     ["configurations"], "every combination of the options",
     "Tests build the service with default options and with two carbon caches that have everything given.",
     [SERV, HTTP], [("wiring", SERV + " createService; " + HTTP + " makeService")], ["the service tree", "carbon destinations"])
prop("C18", "Everything that is started is stopped",
     "Every service the server creates is attached to the root service, so that it starts and stops with it. "
     "Stopping a service stops every periodic task, thread or connection that starting it began, and does not raise when one of them has already ended. "
     "Starting begins every task that was scheduled, with its own interval, including those scheduled while running.",
     ["histories", "fault_sequences"], "every sequence of schedule, start, task failure and stop",
     "Tests start and stop services with no or one healthy task.",
     [SERV, REP, ROUT], [("life cycle", SERV + " StatsDService; " + REP + " ReportingService, ReactorInspectorService; " + ROUT + " TCPRedirectService, build_target_redirect_*")], ["running tasks after stopService"])
prop("C19", "A failing report is logged and neither stops nor disturbs the others",
     "When a scheduled report function or the reporting of its result fails, synchronously or through a Deferred, the failure is logged and the function is called again at its next interval. "
     "When it succeeds, each name and value it returns is reported once, with the instance name and a dot before the name when there is an instance name.",
     ["fault_sequences", "inputs"], "every failure of every report function at every interval",
     "Tests schedule a function that succeeds, once.",
     [REP], [("wrapper", REP + " ReportingService.wrapped, schedule")], ["reported metrics", "log"])
prop("C20", "Counter reports give the change since the previous successful reading",
     "The first report of a counter source is empty, and each later one gives, for every counter present both now and in the previous successful reading, the current minus the previous value. "
     "A reading that fails leaves the previous one in place and does not prevent later reports, and counters that appear or disappear cause no failure.",
     ["histories", "fault_sequences"], "every sequence of readings, failures, appearing and disappearing counters",
     "The test takes four successful readings of one counter.",
     [PSTAT], [("differences", PSTAT + " report_counters")], ["reported values"])
prop("C21", "Memory grows with the number of metrics, not with the number of samples",
     "Between two flushes a compliant timer holds its samples; apart from that, the state the server keeps grows only when a message introduces a name not seen before. "
     "Reservoirs never hold more samples than their size, distinct counters keep a fixed table, and the client's queue never exceeds its limit. "
     "A compliant timer's samples are released by each flush.",
     ["histories"], "every sequence of messages of any length, with any values",
     "Tests process tens of messages and do not look at sizes.",
     [PROC, "txstatsd/stats/uniformsample.py", "txstatsd/stats/exponentiallydecayingsample.py", MET + "distinctmetric.py", MET + "slimetric.py", TCLI],
     [("reservoirs", "txstatsd/stats/*.py update"), ("tables", PROC + " compose_*_metric; " + MET + "distinctmetric.py SlidingDistinctCounter.add"), ("queue", TCLI + " DataQueue.write")],
     ["sizes of containers"])
prop("C22", "Statistics are defined for every history, including none",
     "Reporting a metric, and its minimum, maximum, mean, deviation, percentiles, histogram and rate, never raises, whatever samples it holds: none, one, all equal, or any others, and however its clock moves. "
     "With no samples the statistics of a timer or histogram are zero; with samples, the smallest, largest, mean and deviation are those of the samples since the last clear, percentiles lie between the smallest and largest and in the order asked for, and the histogram counts each kept sample once. "
     "A rate over an interval that is empty or negative is not reported as a division by it.",
     ["histories", "inputs"], "every sequence of samples, clears and reports at any times",
     "Tests use a few spread-out values and an advancing clock.",
     [MET + "histogrammetric.py", MET + "timermetric.py", MET + "metermetric.py", "txstatsd/stats/ewma.py", "txstatsd/stats/exponentiallydecayingsample.py"],
     [("guards", MET + "histogrammetric.py mean, std_dev, percentiles, histogram, get_variance; timermetric.py rate; metermetric.py report")],
     ["exceptions and values of report()"])
prop("C23", "The HTTP pages answer from the processor's actual state",
     "The status page answers ERROR with a 500 code exactly when the latest flush and process durations together exceed 0.7 of the flush interval, and OK otherwise, and shows the figures compared. "
     "The metric list contains the names of all metrics of every type seen by either kind of processor. "
     "A metric's page is served from the timer or plugin metric of that name, and any other name, or a timer without a page, gives a 404 and no exception.",
     ["histories", "inputs"], "every processor state and every requested name, in compliant and configurable mode",
     "Tests use dummies for the processor and one name.",
     [HTTP, PROC, CONF], [("resources", HTTP + " Status, ListMetrics, Metrics, TimerResource"), ("names", PROC + " get_metric_names")], ["HTTP responses"])
prop("C24", "Monitor pings are answered to the sender; all else is processed once, as is",
     "A datagram or line equal to the configured monitor message is answered with the configured response, to its sender, and is not processed as a metric. "
     "Any other datagram or line is handed to the processor exactly once and unmodified, and is not answered. "
     "The UDP and TCP listeners behave the same.",
     ["inputs", "configurations"], "every datagram and line, and every monitor message and response",
     "Tests send one ping and a few metrics to the UDP listener.",
     [PROT], [("listeners", PROT + " StatsDServerProtocol.datagramReceived, StatsDTCPServerProtocol.lineReceived, StatsDTCPServerFactory.buildProtocol")], ["replies", "messages processed"])
prop("C25", "SLI metrics count every sample and each condition that holds",
     "Each SLI sample adds one to the count, and either one to the errors when its value is the word error, or one to each condition that its value and size satisfy: above or below value + slope * size, strictly, or strictly between two bounds. "
     "A missing size counts as one. "
     "A flush reports each condition's count, the total and the errors, and starts again from zero; a metric has the conditions of every configured rule whose pattern matches its full path.",
     ["inputs", "configurations", "histories"], "every sample, every rule set, every sequence of samples and flushes",
     "Tests use a handful of numbers, not equal to the bounds, on separate conditions.",
     [MET + "slimetric.py", "twisted/plugins/sli_plugin.py"],
     [("conditions and counting", MET + "slimetric.py"), ("rules", "twisted/plugins/sli_plugin.py SLIMetricFactory.configure, build_metric")], ["flushed SLI datapoints"])
prop("C26", "Distinct counts use fixed tables and the right time windows",
     "Each item marks, for every hash function, the one bucket given by the number of trailing zeros of its hash, bounded by the last bucket, with the time it was seen; the same item always marks the same buckets of a metric. A metric has 32 hash functions with 32 buckets each, and tables of random 32-bit numbers drawn once for each of them, independently; every byte of the item and its place counts. "
     "The reported total and the one-minute, one-hour and one-day counts consider buckets marked since the beginning, and during the last 60, 3600 and 86400 seconds: each is two to the mean number of leading marked buckets, divided by 0.77351, as a whole number. A flush does not reset them.",
     ["inputs", "histories"], "every item, every sequence of times",
     "Tests check the estimate statistically for one window.",
     [MET + "distinctmetric.py"], [("table and windows", MET + "distinctmetric.py SlidingDistinctCounter, DistinctMetricReporter, SBoxHash")], ["flushed distinct datapoints"])
prop("C27", "Every plugin implements the whole plugin contract",
     "Every bundled metric plugin declares a name and a message type that no built-in type or other plugin uses, can be configured with any options, and builds, from a prefix, a name and a clock, a metric that can process fields and be flushed with an interval and a timestamp. "
     "Building or flushing one metric does not affect another: no state is shared between the metrics of a plugin except its configuration.",
     ["configurations", "histories"], "every bundled plugin and every number of metrics built from it",
     "Tests build one metric per plugin.",
     ["twisted/plugins/distinct_plugin.py", "twisted/plugins/sli_plugin.py", MET + "slimetric.py", MET + "distinctmetric.py", "txstatsd/itxstatsd.py"],
     [("interfaces", "txstatsd/itxstatsd.py IMetricFactory, IMetric"), ("plugins", "twisted/plugins/*_plugin.py")], ["plugin objects"])
prop("C28", "Dump mode logs everything and alters nothing",
     "In dump mode every message received with a well-formed layout is logged once before it is processed, and every datapoint of a flush is logged once. "
     "Apart from that, messages are processed and datapoints are flushed, in the same order and number, exactly as by the configurable processor.",
     ["inputs", "histories"], "every message and every flush",
     "Tests log two messages and one flush.",
     [LOGP], [("logging processor", LOGP + " LoggingMessageProcessor.process_message, flush")], ["log", "flush"])
prop("C29", "Each datapoint of a flush is handed to carbon exactly once",
     "Every flush hands each datapoint to the carbon client once, as its path with the pair of timestamp and value, in the order produced. "
     "It uses the configured flush interval and yields to the reactor between datapoints, so that a large flush does not block the receipt of messages.",
     ["histories", "schedules"], "every flush of every length",
     "Tests never run the flush task against a carbon client.",
     [SERV], [("flush", SERV + " StatsDService.flushProcessor")], ["calls of the carbon client"])
prop("C30", "Compliant timer statistics describe the interval's samples",
     "For each compliant timer with samples in the interval, lower and upper are the smallest and the largest sample, count is the number of samples, and upper_N and mean are the largest and the mean of the samples left when the slowest (100-N) percent, rounded to a whole number of samples, are removed. "
     "With a single sample all of them are that sample, and count is one. "
     "A timer without samples in the interval reports nothing.",
     ["inputs", "histories"], "every list of samples in every order, and every percentile from 1 to 100",
     "Tests use one sample and one short list, in order.",
     [PROC], [("statistics", PROC + " flush_timer_metrics")], ["flushed timer datapoints"])
prop("C31", "System and process statistics label each figure correctly",
     "Figures read from the operating system are reported under the label of the column or field they come from, in bytes where the source has a unit: memory sizes with their multiplier, load averages in their order, received and sent bytes and packets of each network device. "
     "Lines of other keys, blank lines and header lines do not produce figures and cause no failure. "
     "The standard system report gives memory and load figures as they are and network and processor figures as differences between readings; process figures are psutil's own, by the names of the releases requirements.txt admits.",
     ["inputs"], "every content of the proc files that follows the kernel's format",
     "Tests parse one sample file each, and cannot run where psutil is missing.",
     [PSTAT], [("parsers", PSTAT + " parse_meminfo, parse_loadavg, parse_netdev, ProcessReport.*")], ["reported figures"])
prop("C32", "Moving averages follow their definition tick by tick",
     "The first tick of a moving average sets its rate to that of the counts so far, per second of the interval; each later tick moves it towards the rate of the counts since the tick before by the smoothing constant. "
     "Each count belongs to exactly one tick, an interval without counts counts as a rate of zero, and the rate is zero before the first tick and does not change between ticks. "
     "The predefined averages are those of the Unix load averages over one, five and fifteen minutes, ticked every five seconds.",
     ["histories"], "every sequence of counts and ticks, with any smoothing constant and interval",
     "Tests update each average once, before the first tick, and only decay it from then on.",
     ["txstatsd/stats/ewma.py"], [("recurrence", "txstatsd/stats/ewma.py Ewma.update, Ewma.tick"), ("constants", "txstatsd/stats/ewma.py one_minute_ewma, five_minute_ewma, fifteen_minute_ewma")], ["rate"])
prop("C33", "The reactor inspector's delay measures how long the reactor has not answered",
     "In each round the inspector asks the reactor once, waits for its loop time and reports exactly one delay: the time the oldest request answered in the round took, or, when the reactor answered none, the time since the oldest request it has not answered, which grows from round to round. "
     "A round without an answer, and no other, is logged as critical. "
     "After the reactor has caught up, earlier requests have no influence on later figures, and after it is stopped the inspector ends with its round and without an exception.",
     ["schedules"], "every schedule in which a reactor answers the requests made so far, over any number of rounds",
     "Tests run three schedules of at most three rounds against the clock.",
     ["txstatsd/report.py"], [("loop", "txstatsd/report.py ReactorInspector.run")], ["delay gauge", "log"])
prop("C41", "Reservoir samples are statistically representative",
     "Given a uniform random source, a uniform reservoir of N that has seen n samples since it was last cleared keeps all of them while n is at most N, and each of them with probability N/n after that. "
     "A decaying reservoir keeps the N samples with the greatest weights, exp(alpha times the sample's time) over its own uniform draw, whatever the order and the times at which it was rescaled, and also for samples given with an older time. "
     "The default one holds 1028 samples with an alpha of 0.015.",
     ["histories", "inputs"], "every stream of samples, at any times, and every draw of the random source",
     "Tests check the number of samples, and that they are samples, on one stream with unseeded draws.",
     ["txstatsd/stats/uniformsample.py", "txstatsd/stats/exponentiallydecayingsample.py", MET + "histogrammetric.py"],
     [("sampling", "txstatsd/stats/*.py update"), ("rescaling", "txstatsd/stats/exponentiallydecayingsample.py rescale"), ("defaults", MET + "histogrammetric.py using_exponentially_decaying_sample")], ["get_values()"])
# not claimed: static analysis cannot decide them here
prop("C40", "Distinct estimates are within their statistical error",
     "The distinct count of a window is, with the documented probability, within the estimator's error bound of the true number of distinct items.",
     ["inputs"], "every multiset of items and every draw of the hash functions", "It is a statistical statement.",
     [MET + "distinctmetric.py"], [("estimator", MET + "distinctmetric.py SlidingDistinctCounter.distinct")])
prop("C42", "No write is lost when application threads race with the reactor",
     "A message written to the Twisted client by an application thread at the very moment the reactor flushes the queue is sent or queued, and in order.",
     ["schedules"], "every preemption point inside the queue operations", "It needs control of preemption inside one statement.",
     [TCLI], [("queue", TCLI + " DataQueue")])
prop("C43", "Moving averages and variances are numerically accurate",
     "Moving averages, means and deviations are within rounding of the exact value for every sequence of samples.",
     ["inputs"], "every sequence of floating point samples", "It quantifies over floating point rounding.",
     ["txstatsd/stats/ewma.py", MET + "histogrammetric.py"], [("formulas", "txstatsd/stats/ewma.py Ewma.tick; " + MET + "histogrammetric.py update_variance")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
