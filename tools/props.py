"""The properties, and what decides them."""
PROPS = []
NA = {}
NOTES = ('All verdicts are decided by TLC: the specifications in spec/ are model-checked (with mutated designs that '
         'must be refuted), command sequences generated from them are executed on the real code, and every recorded '
         'trace is validated against them. No hooks in /repo are needed.')
TB = ('Trusted: TLC, CPython, the drivers in harness/ that record the observations (what they log is what the '
      'specification judges). ')


def P(id, title, statement, over, q, why, files, mech, tech, note, state=(), obs=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                      tech=tech, note=TB + note, state=list(state), obs=list(obs)))


P('C01', 'Every reported span is sent once or counted as dropped',
  'Every span handed to the remote reporter meets exactly one fate: it is part of exactly one batch given to the '
  'sender, or it is dropped. The counters tell the truth: each span adds one to exactly one of the ok, err and '
  'dropped counts, ok exactly for the spans of batches whose send succeeded, err for those of batches that failed, '
  'so that after close the three counts add up to the number of reported spans.',
  ['schedules', 'fault_sequences', 'histories'],
  'all orders of report, flush timeout, send completion or failure, close; all queue and batch sizes',
  'The tests sample a handful of orders with mocked senders; loss, duplication or miscounting needs a particular '
  'interleaving of a full queue, a pending send, a failure and a close.',
  ['jaeger_client/reporter.py'],
  [('bounded queue with one consumer coroutine', 'reporter.py Reporter._consume_queue'),
   ('counters after the send', 'reporter.py Reporter._submit')],
  'TLA+ model checked with TLC (Reporter, ReporterObs) + generated command sequences + trace validation (ReporterAbs)',
  'Exhaustive on the design with 3 (5) spans and 2 closes; the code is validated on TLC-enumerated command sequences, '
  'seeded random ones with faults, and multi-threaded runs against a real event loop thread.',
  obs=['spans in batches', 'jaeger:reporter_spans counters'])
P('C02', 'The reporter buffers boundedly, first in first out, and never raises',
  'Spans are dropped only when the buffer of the configured capacity is full or the reporter was closed, and never '
  'more than the capacity plus one batch being assembled are held. Batches are non-empty, contain at most the '
  'configured number of spans, are sent one at a time, and contain the accepted spans in the order of reporting. '
  'Reporting a span never raises and never waits for the network.',
  ['schedules', 'fault_sequences', 'histories', 'configurations'],
  'all orders of report bursts, sends that stay open, time and close; all capacities and batch sizes',
  'Tests use one or two fixed sizes and orders; an off-by-one in capacity or a reordering needs bursts around a '
  'pending send.',
  ['jaeger_client/reporter.py'],
  [('tornado queue with maxsize, put_nowait', 'reporter.py Reporter._report_span_from_ioloop'),
   ('batch loop', 'reporter.py Reporter._consume_queue')],
  'TLA+ model checked with TLC (Reporter, ReporterObs) + generated command sequences + trace validation (ReporterAbs)',
  'Same exploration as C01, judged by the bounds, order and gauge clauses.')
P('C03', 'Full batches leave at once, partial ones after the flush interval',
  'When as many spans as a batch may hold are waiting and no send is in progress, a batch is sent without delay. A '
  'smaller batch is sent when exactly the flush interval has passed since a span last joined it, or at close, never '
  'earlier; without a flush interval only full batches and close send.',
  ['schedules', 'histories', 'configurations'],
  'all arrival times of spans relative to the flush timer, with and without a flush interval',
  'The tests wait in real time with one interval; a timer that is not re-armed after a failure, a drop or an idle '
  'period shows only in longer histories.',
  ['jaeger_client/reporter.py'],
  [('queue get with timeout', 'reporter.py Reporter._consume_queue')],
  'TLA+ liveness (EverySpanSettles) and timed trace validation with a virtual clock (ReporterAbs)',
  'Liveness is exhaustive on the small design; the code runs on an event loop with virtual time, so that "exactly" is '
  'decided without tolerance.')
P('C04', 'Closing the reporter flushes everything and completes',
  'After close every span that was accepted before is sent, in any state of the buffer and of a pending send; every '
  'future returned by close completes, without an exception, also for repeated and concurrent closes, and not before '
  'everything accepted was handed to the sender and answered. Spans reported after close are dropped and counted, '
  'and nothing raises.',
  ['schedules', 'fault_sequences', 'histories'],
  'all states of queue, batch and send at the time of each close, repeated closes, closes from other threads',
  'Tests close once, with an empty or nearly empty queue; full queues, open sends, failures and second closes are '
  'not reached.',
  ['jaeger_client/reporter.py', 'jaeger_client/ioloop_util.py'],
  [('stop marker and join', 'reporter.py Reporter._flush'), ('submit to the loop', 'ioloop_util.submit')],
  'TLA+ liveness (CloseCompletes) with refuted mutants + trace validation (ReporterAbs)',
  'Liveness under weak fairness on the small design; the code is validated on all generated command sequences, '
  'each of which ends with a close.')
P('C05', 'A failed send or a bad span costs only its own batch',
  'When the socket fails or a span cannot be encoded, exactly the batch concerned is counted as err, the reporter '
  'keeps running and later spans are sent as usual. Every datagram that leaves the process is exactly one complete, '
  'well-formed batch message: no remains of a failed batch, no duplicates, no exceptions in the event loop.',
  ['fault_sequences', 'inputs', 'histories'],
  'all placements of socket errors, encoding errors and oversize batches in the stream of spans',
  'Tests inject one failure at the mocked sender; what a failed encoding leaves in the transport buffer shows only '
  'in the next datagram.',
  ['jaeger_client/reporter.py', 'jaeger_client/local_agent_net.py', 'jaeger_client/thrift.py',
   'jaeger_client/TUDPTransport.py'],
  [('exception handlers of submit', 'reporter.py Reporter._submit'),
   ('discarding the buffer', 'local_agent_net.py LocalAgentSender.discard')],
  'trace validation (ReporterAbs) of runs with the real sender, injected faults and an independent decoder',
  'Random fault placements (seeded) on the real thrift encoder; the datagrams are decoded by an independent '
  'implementation of the compact protocol.')
P('C06', 'The agent receives exactly what the application recorded',
  'The decoded batch of every flush has one span per reported span with the same ids (all 64 and 128 bits), parent, '
  'flags, operation, start, duration (to a microsecond), references, tags and logs in order. Values keep type and value '
  '(bool, 64-bit int, double); everything else is sent as text cut to the configured length, whatever the object is. The '
  'process carries service name and tracer tags, plus version, ip and hostname unless given.',
  ['inputs', 'configurations'],
  'all ids, integers, floats, texts, objects, times and tag configurations; all batch sizes',
  'Tests compare a few thrift objects; sign and width boundaries, cut lengths and odd objects are not sampled, and no '
  'test decodes the datagram.',
  ['jaeger_client/thrift.py', 'jaeger_client/span.py', 'jaeger_client/tracer.py', 'jaeger_client/reporter.py',
   'jaeger_client/thrift_gen/jaeger/ttypes.py'],
  [('conversion', 'thrift.py make_jaeger_batch, make_tag, make_log, make_references'),
   ('process tags', 'tracer.py Tracer.__init__'), ('encoding', 'thrift_gen/jaeger/ttypes.py')],
  'TLA+ model of 64-bit fields (WireDesign, TLC) + generated ids and integers + trace validation (WireTrace) of decoded '
  'datagrams',
  'Datagrams of the real sender are decoded by an independent compact-protocol reader and compared with what the driver '
  'recorded, field by field, in TLA+.')
P('C07', 'Composite and local reporters lose and invent nothing',
  'Every call made to a composite reporter (process, span, close) reaches each of its reporters exactly once and in '
  'order, nested or not; its close completes exactly when all of them have closed, successfully or not, and never raises '
  'for want of an event loop. The in-memory reporter holds every reported span once in order, also with several threads, '
  'and hands out snapshots that belong to the caller; the logging reporter logs one INFO record per span.',
  ['histories', 'schedules', 'configurations'],
  'all shapes of composites, all orders of calls and completions, callers with and without event loop, threads',
  'The tests use one composite of two reporters with futures that complete in order, on the loop.',
  ['jaeger_client/reporter.py', 'jaeger_client/ioloop_util.py'],
  [('fan-out and close', 'reporter.py CompositeReporter'), ('memory', 'reporter.py InMemoryReporter'),
   ('log', 'reporter.py LoggingReporter')],
  'TLA+ model checked with TLC (Fan) + generated command sequences + trace validation (FanTrace, MemLin)',
  'Three leaves exhaustively in the design; ten shapes, random histories on the code; the in-memory reporter under the '
  'deterministic scheduler. One known finding: the future does not complete without a running loop.')
SEQ = 'TLA+ model checked with TLC (Tracer) + generated command sequences + trace validation (TracerAbs)'
LIN = ' + linearizability of scheduled threads (SpanConc, SpanLin)'
SEQN = ('Exhaustive on the small design; the real tracer runs TLC-generated and seeded random command sequences (two '
        'threads, wide and narrow ids, shared and separate RPC span ids, with and without throttler) and every field '
        'of every span, context and scope is compared after every command. ')
CONN = ('Threads run under a deterministic scheduler that switches at lines, bytecodes and locks: all or sampled '
        'single preemptions, sampled multiple ones.')
P('C08', 'A sampled span is reported exactly once, by its first finish',
  'The first call of finish on a sampled span marks it finished, sets its end time (the given one, otherwise the '
  'current time) and reports it; later or concurrent calls, also through scopes and with-blocks, change nothing and '
  'report nothing. The end time is fixed before the span is reported. Spans that are not sampled or not finished are '
  'never reported.',
  ['schedules', 'histories'],
  'all histories of finish, scope exits and updates, and all interleavings of finish calls of several threads',
  'The double-finish tests are sequential; a race between the test and the marking needs a particular preemption.',
  ['jaeger_client/span.py', 'jaeger_client/tracer.py'],
  [('finished flag under the lock', 'span.py Span.finish'), ('report', 'tracer.py Tracer.report_span')],
  SEQ + LIN, SEQN + CONN, obs=['Reporter.report_span calls', 'Span.end_time', 'Span.finished'])
P('C09', 'Concurrent updates of a span are neither lost nor torn',
  'When several threads set tags, log, set baggage, rename, read baggage, start children or when the span is being '
  'encoded for sending, every operation appears to take effect at one instant between its call and its return: no '
  'tag, log or baggage item is lost or overwritten by another key\'s update, and an encoded span is consistent. No '
  'deadlock and no exception results.',
  ['schedules'],
  'all interleavings of the operations of two or three threads on one span',
  'The test suite has no concurrent updates; the lost update needs a switch between reading and replacing the '
  'context.',
  ['jaeger_client/span.py', 'jaeger_client/span_context.py', 'jaeger_client/thrift.py'],
  [('update_lock', 'span.py Span'), ('copies of tags and logs', 'thrift.py make_jaeger_batch'),
   ('copy on write of baggage', 'span_context.py SpanContext.with_baggage_item')],
  'TLA+ model checked with TLC (SpanConc) + linearizability of scheduled threads (SpanLin)', CONN +
  ' Ten (thorough: forty) programs of two or three threads.')
P('C10', 'A sampled span records everything it is told, an unsampled one nothing',
  'On a sampled span every tag, log (with its time and fields) and operation name is recorded, in order and with its '
  'type and value, including the ones given at the start; on an unsampled span nothing is. Setting sampling.priority '
  'to zero switches sampling off, to another number switches the trace to sampled and debug if the throttler allows '
  'it, and anything else is ignored without effect; this never raises.',
  ['inputs', 'histories'],
  'all histories of span operations with values of all types, in all sampling states',
  'Tests check one value per type; an error in a rarely taken combination (priority on an already debug span, refused '
  'by the throttler, at start) escapes them.',
  ['jaeger_client/span.py', 'jaeger_client/tracer.py', 'jaeger_client/thrift.py'],
  [('set_tag', 'span.py Span.set_tag'), ('priority', 'span.py Span._set_sampling_priority'),
   ('log_kv', 'span.py Span.log_kv')], SEQ, SEQN)
P('C11', 'Baggage is inherited, isolated and logged',
  'A new span has all baggage of its parent. Setting an item on a span replaces exactly that key on that span, for '
  'itself and its later children, is visible in contexts injected afterwards and is logged on the span if sampled; it '
  'never changes other spans nor contexts obtained before.',
  ['histories', 'inputs'],
  'all histories of baggage updates, context captures, child creation, inject and extract',
  'Tests set one or two items on one span; aliasing between contexts shows only when a context is held across an '
  'update and then used.',
  ['jaeger_client/span.py', 'jaeger_client/span_context.py', 'jaeger_client/tracer.py'],
  [('copy on write', 'span_context.py SpanContext.with_baggage_item'), ('inheritance', 'tracer.py Tracer.start_span')],
  SEQ, SEQN)
P('C12', 'A new span continues its parent\'s trace under a fresh id',
  'A span started with a parent (child_of, else the first reference with a trace, else the active span unless ignored) '
  'has the parent\'s trace id, the parent\'s span id as parent id and a fresh span id, or shares the parent\'s ids for '
  'server spans in one-span-per-RPC mode; without a parent it starts a new trace. All given references are kept in '
  'order. Ids of existing spans and contexts never change.',
  ['histories', 'configurations', 'inputs'],
  'all combinations of child_of, references, active span, ignore_active_span, RPC mode; all histories',
  'The tests check some combinations; precedence errors appear only when several sources of a parent are present.',
  ['jaeger_client/tracer.py'],
  [('start_span', 'tracer.py Tracer.start_span')], SEQ, SEQN)
P('C13', 'Sampling is decided once, at the root of a trace, and inherited',
  'The sampler is asked exactly once for every new trace without a debug id, with its trace id and operation, and never '
  'for a span that has a parent with a trace; its tags are put on the root span. Every descendant has its parent\'s '
  'flags, across processes too, until sampling.priority changes them on a span.',
  ['histories', 'configurations'],
  'all histories of root, child, remote-child and RPC spans with arbitrary sampler answers',
  'Tests use constant samplers, with which asking twice or using another span\'s decision is invisible.',
  ['jaeger_client/tracer.py', 'jaeger_client/span.py'],
  [('start_span', 'tracer.py Tracer.start_span')], SEQ, SEQN)
P('C14', 'A debug id starts a debug trace if the throttler allows it',
  'A carrier without a trace but with a debug id yields a context whose first span starts a new trace that is sampled '
  'and debug and tagged with the debug id, without asking the sampler; if the throttler refuses, it is neither sampled '
  'nor debug. Where no throttler is configured debug is always allowed; the throttler is asked once, for that '
  'operation.',
  ['histories', 'inputs', 'configurations'],
  'all histories with debug-id carriers, with and without baggage and throttler, arbitrary answers',
  'Tests cover the plain case; with a throttler, baggage or references the paths are untested.',
  ['jaeger_client/tracer.py', 'jaeger_client/codecs.py', 'jaeger_client/span_context.py'],
  [('debug id container', 'span_context.py SpanContext.with_debug_id'), ('start_span', 'tracer.py Tracer.start_span')],
  SEQ, SEQN)
P('C15', 'The active span is per thread, nests, and is the default parent',
  'Activating a span makes it the active one of the current thread only (or of the current task or context, if the tracer '
  'was given a scope manager that distinguishes those), until its scope is closed, which restores the '
  'previously active one; closing finishes the span only if requested. A span started without a parent is a child of '
  'the active span, unless it is told to ignore it.',
  ['histories', 'schedules'],
  'all histories of activations, closes and starts in two threads, tasks or contexts',
  'Tests nest once in one thread.',
  ['jaeger_client/tracer.py', 'jaeger_client/scope_manager.py'],
  [('start_active_span', 'tracer.py Tracer.start_active_span'), ('scope manager', 'opentracing ThreadLocalScopeManager')],
  SEQ, SEQN)
P('C16', 'The counters of the tracer count every span exactly once',
  'The counts of started spans by sampling outcome, of started and joined traces by outcome, and of finished spans are '
  'exact at every moment: each span adds one to each count it belongs to, when it is started respectively reported.',
  ['histories'],
  'all histories of starts (root, child, remote, RPC, debug) and finishes',
  'Tests count one or two spans of each kind.',
  ['jaeger_client/tracer.py', 'jaeger_client/metrics/__init__.py'],
  [('_emit_span_metrics', 'tracer.py Tracer._emit_span_metrics')], SEQ, SEQN)
COD = 'TLA+ specification of the carriers (Codec, CodecDesign) checked with TLC + conformance of inject/extract (CodecTrace)'
CODN = ('Exhaustive over 2-8 thousand contexts per format and damaged carriers in the specification, with refuted '
        'mutants; the code runs on a sample of those (quick) and on seeded random contexts and carriers; every result is '
        'judged by the specification, which works on code points, bytes and hexadecimal digits. ')
P('C18', 'A trace context survives inject and extract in every format',
  'Whatever context is injected, extracting the carrier yields the same trace id (all 128 bits), span id, parent id '
  'and flags, and for the text, HTTP and binary formats the same baggage for any text as value; the Zipkin and B3 '
  'formats carry no baggage, and B3 only the sampled and debug state. HTTP values are safe as header values, B3 ids have '
  'the prescribed width, and other entries of the carrier are left alone.',
  ['inputs', 'configurations'],
  'all ids of 1 to 128 bits, all flags, all baggage texts, all formats and header configurations',
  'Tests inject a few fixed ids; errors at 64-bit boundaries, in the high half or with unusual characters escape them.',
  ['jaeger_client/codecs.py', 'jaeger_client/tracer.py', 'jaeger_client/span_context.py'],
  [('text and HTTP', 'codecs.py TextCodec'), ('binary', 'codecs.py BinaryCodec'), ('Zipkin', 'codecs.py ZipkinCodec'),
   ('B3', 'codecs.py B3Codec')], COD, CODN + 'One known finding: B3 debug contexts lose the sampled bit.')
P('C19', 'Malformed carriers are rejected cleanly, never misread',
  'Extracting from any carrier returns a context, returns nothing if there is no trace, debug id or baggage, or raises '
  'the documented corruption error for a malformed or out-of-range trace; it never raises anything else and never '
  'returns ids that were not in the carrier or do not fit. Wrong carrier types, unknown formats and foreign contexts are '
  'rejected with the documented errors.',
  ['inputs'],
  'all header values and all byte strings: truncated, overlong, zero, negative, non-hexadecimal, wrong types',
  'The tests list a dozen malformed strings; the space of damaged carriers is endless.',
  ['jaeger_client/codecs.py', 'jaeger_client/tracer.py'],
  [('parsing', 'codecs.py span_context_from_string'), ('binary parsing', 'codecs.py BinaryCodec._extract'),
   ('B3 parsing', 'codecs.py header_to_hex')], COD, CODN +
  'Strings on which int(s, 16) is lenient (signs, blanks, underscores) may be accepted or rejected.')
P('C20', 'Headers are found under any letter case, with configured names',
  'With any configured trace header, baggage prefix and debug header, extraction finds the entries whatever their '
  'letter case, uses the text after the prefix in lower case as baggage key, merges ad-hoc baggage (k=v pairs, invalid '
  'ones ignored) and ignores all other entries; HTTP values are percent-decoded, text values taken as they are. '
  'Injection writes exactly the configured names in lower case.',
  ['inputs', 'configurations'],
  'all letter cases, header configurations, orders and mixtures of headers',
  'Tests use the default names and one custom configuration.',
  ['jaeger_client/codecs.py', 'jaeger_client/tracer.py'],
  [('TextCodec', 'codecs.py TextCodec')], COD, CODN)
SAM = 'TLA+ specification of the samplers (Samp, %s) checked with TLC + conformance of the samplers (SampTrace%s)'
SAMN = ('Exhaustive for scaled-down credits, clocks and probabilities in the specification, with refuted mutants; the code '
        'runs on a virtual clock with generated and seeded random histories, and every decision, tag and update is judged '
        'by the specification. Where binary fractions are not exact the specification keeps bounds instead of one balance. ')
P('C21', 'The sampling decision depends only on the low 64 bits and the rate',
  'A constant sampler always answers its constant; a probabilistic sampler with rate p samples exactly the trace ids whose '
  'low 64 bits, read as a fraction of 2^64, are below p, so that all processes agree, a higher rate samples a superset, 0 '
  'samples nothing and 1 everything. Decisions carry the sampler type and its rate as tags, and rates that are not between '
  '0 and 1 are refused.',
  ['inputs'], 'all trace ids of up to 128 bits and all probabilities',
  'Tests try the boundary of one rate; other rates, boundaries and 128-bit ids are open.',
  ['jaeger_client/sampler.py'],
  [('decision', 'sampler.py ProbabilisticSampler.is_sampled'), ('rate change', 'sampler.py ProbabilisticSampler')],
  SAM % ('ProbDesign', ''), SAMN)
P('C22', 'Rate limiting never exceeds and never wastes its budget',
  'In any window of time a rate limiting sampler grants at most rate times length plus one capacity (the rate, but at '
  'least one), and denies only when its credit is below one; refusals cost nothing, a clock stepped back gives and takes '
  'nothing, and a new rate keeps the credit in proportion. This holds for any interleaving of threads.',
  ['schedules', 'histories'], 'all rates, clock movements, ask sequences, rate changes and interleavings',
  'Tests ask at a few hand-picked times from one thread.',
  ['jaeger_client/sampler.py', 'jaeger_client/rate_limiter.py'],
  [('credit', 'rate_limiter.py RateLimiter.check_credit'), ('update', 'rate_limiter.py RateLimiter.update')],
  SAM % ('RateDesign', ', SampLin'), SAMN)
P('C23', 'Every operation keeps a guaranteed minimum of samples',
  'With a guaranteed lower bound an operation is sampled whenever its probability says so or its own lower-bound budget has '
  'credit, and the tags tell which of both decided; probabilistic samples use up the same budget. The adaptive sampler keeps '
  'such a budget per operation, new operations get the default rate until the maximum number of operations is reached and '
  'plain default sampling beyond it, and a new strategy changes rates without refilling budgets or forgetting operations.',
  ['histories', 'configurations'], 'all strategies, strategy changes, operations, maxima, trace ids and clock movements',
  'Tests use one or two operations and one update.',
  ['jaeger_client/sampler.py'],
  [('lower bound', 'sampler.py GuaranteedThroughputProbabilisticSampler'),
   ('per operation', 'sampler.py AdaptiveSampler')], SAM % ('SampDesign', ''), SAMN)
P('C24', 'A sampling strategy from the agent takes effect wholly or not at all',
  'A valid probabilistic, rate limiting or per-operation strategy from the agent decides all later samplings; the same '
  'strategy again changes nothing, one of the same kind keeps the remaining budgets, and what it omits has its default. An invalid or '
  'unparseable answer leaves the sampler exactly as it was and is counted as a failure; threads that sample during an update see the old or the '
  'new strategy for each decision and never an error.',
  ['histories', 'schedules', 'fault_sequences'], 'all sequences of answers, valid or damaged, and interleavings with sampling',
  'Tests apply single answers; invalid entries in the middle and concurrent sampling are not covered.',
  ['jaeger_client/sampler.py'],
  [('update', 'sampler.py RemoteControlledSampler._update_sampler'), ('adaptive', 'sampler.py AdaptiveSampler.update')],
  SAM % ('SampDesign', ', SampLin'), SAMN)
P('C17', 'Ids are never zero, fit their width and are fresh',
  'Every new trace gets a trace id of 64 bits, or 128 if configured, and every new span a span id of 64 bits; none is zero, '
  'all bits vary, and none repeats or is derived from another, also across tracers that were created at different moments '
  'or in different processes. A child keeps the trace id of its parent.',
  ['inputs', 'histories', 'configurations'], 'all random numbers including zeros, both widths, all numbers of tracers and spans',
  'Zero or colliding random numbers do not come up in a test run.',
  ['jaeger_client/tracer.py'],
  [('drawing ids', 'tracer.py Tracer.start_span'), ('seeding', 'tracer.py Tracer')],
  'TLA+ specification of drawing ids (IdsDesign) checked with TLC + conformance of tracers with scripted and free random numbers (IdsTrace)',
  'Exhaustive for 2-3 bit ids in the specification with refuted mutants; on the code, scripted draws with zeros and boundary '
  'values, and hundreds of free draws over several tracers. Forked processes that share one tracer are outside of the property.')
POL = 'TLA+ specification of the polling lifecycle (Poll) checked with TLC + conformance of recorded requests (PollTrace) on a virtual clock'
POLN = ('Exhaustive for an interval of 2 ticks and 6-8 ticks of time in the specification, with refuted mutants; the code runs '
        'generated and seeded random histories on a virtual event loop, and close runs against polling under a controlled '
        'thread scheduler. ')
P('C25', 'The remote sampler polls the agent in time, until closed',
  'Without being closed, a remote sampler asks the agent for its strategy after a random delay of at most one refresh '
  'interval and then exactly once per interval, whatever happens to the answers; delays of many samplers are spread over the '
  'interval. Every answer is counted once as success or failure, the last valid one decides, and once close has returned no '
  'new poll begins, whatever the thread and moment of closing. Without event loop it never polls and keeps its first sampler.',
  ['schedules', 'fault_sequences', 'histories'], 'all intervals, delays, answers, failures, and moments and threads of closing',
  'The tests mock the loop and never let an interval pass.',
  ['jaeger_client/sampler.py'],
  [('polling', 'sampler.py RemoteControlledSampler._delayed_polling'), ('close', 'sampler.py RemoteControlledSampler.close')],
  POL, POLN)
P('C26', 'Debug spans are throttled exactly by the credits from the agent',
  'A debug span is allowed exactly if its operation has at least one credit, and takes one; every refusal is counted and costs '
  'nothing. A response adds all of its balances or, if it is malformed anywhere, none, and is counted accordingly. Under any '
  'interleaving of threads no credit is spent twice or lost.',
  ['schedules', 'histories', 'inputs'], 'all sequences of questions and responses, malformed entries and thread interleavings',
  'Tests ask from one thread, with whole credits and one malformed response.',
  ['jaeger_client/throttler.py'],
  [('spending', 'throttler.py RemoteThrottler.is_allowed'), ('adding', 'throttler.py RemoteThrottler._update_credits')],
  'TLA+ specification of the credits (Cred, CredDesign) checked with TLC + conformance (CredTrace) and linearizability (CredLin) of the throttler',
  'Exhaustive for 2 threads, 2 operations and 3-4 questions in the specification, with refuted mutants; on the code generated, '
  'damaged and seeded random responses, and all schedules with at most 2 preemptions of small thread programs. Balances are multiples of 1/1024.')
P('C27', 'The throttler asks for credits in time, for all its operations',
  'As soon as it has seen an operation, the throttler asks the agent for credits within one refresh interval and then once per '
  'interval until it is closed, whatever happens to the answers; it never asks before. Every request names the service, the '
  'client id that was set first, and each operation seen so far once. Once close has returned no new request begins.',
  ['schedules', 'fault_sequences', 'histories'], 'all intervals, delays, operations, answers, failures, and moments and threads of closing',
  'The tests mock the loop and never let an interval pass.',
  ['jaeger_client/throttler.py'],
  [('polling', 'throttler.py RemoteThrottler._delayed_polling'), ('request', 'throttler.py RemoteThrottler._fetch_credits')],
  POL, POLN)
P('C28', 'A tracer does what its configuration and environment say',
  'A tracer built from any configuration has the service name, sampler, reporter sizes and intervals, agent address, ports, '
  'header names, propagation, limits, tags, id width, throttler, logging and metrics that the configuration asks for, with the '
  'environment where it is silent (and first for tags) and the documented defaults otherwise. An invalid one is rejected when it '
  'is built. Configuration objects are not modified.',
  ['configurations', 'inputs'], 'every option with every kind of value, alone and combined, and all environment variables',
  'Tests set one option and look at one attribute; what the tracer then does is not observed.',
  ['jaeger_client/config.py', 'jaeger_client/utils.py'],
  [('options', 'config.py Config'), ('building', 'config.py Config.new_tracer'), ('booleans', 'utils.py get_boolean')],
  'TLA+ specification of what a configuration means (Conf), evaluated by TLC on tracers built by the code and observed from outside (ConfTrace)',
  'Every option with every value in the list on its own, its overrides, and seeded random combinations. Numbers are small; invalid '
  'numbers in the environment and the tags of malformed JAEGER_TAGS are covered only where they fall back to defaults.')
P('C29', 'The global tracer is initialized once',
  'However many threads initialize the global tracer, and however often, exactly one call builds and installs a tracer and returns '
  'it, which is installed when the call returns; every other call returns nothing, has no effect and warns once. Asking whether it '
  'is initialized is linearizable with that.',
  ['schedules', 'histories'], 'all interleavings of initializations and questions',
  'The tests initialize from one thread.',
  ['jaeger_client/config.py'],
  [('initialization', 'config.py Config.initialize_tracer'), ('question', 'config.py Config.initialized')],
  'TLA+ specification (InitOnce, InitDesign) checked with TLC + linearizability of explored schedules of the code (InitTrace)',
  'Exhaustive for 3 threads in the specification, with refuted mutants; on the code all schedules with 1 preemption and samples of more, by line and '
  'by instruction, of programs of up to 3 threads.')
P('C30', 'Metrics reach their backend under the right name and tags, exactly',
  'Every update of a counter, gauge or timer reaches the backend once, with its value (timers in milliseconds for the legacy one) and '
  'under a name that depends on the metric name and the set of tags only, not on their order; what the backend lacks is ignored. '
  'Prometheus holds the sums and last values, whatever number of threads create the same metrics; the caller\'s tags stay as they are.',
  ['inputs', 'histories', 'schedules'], 'all names, tags and their orders, values, missing backends, and interleavings of creation',
  'Tests create a few metrics from one thread, with one order of tags.',
  ['jaeger_client/metrics/metrics.py', 'jaeger_client/metrics/prometheus.py'],
  [('legacy', 'metrics/metrics.py LegacyMetricsFactory'), ('prometheus', 'metrics/prometheus.py PrometheusMetricsFactory._get_metric')],
  'TLA+ specification of metrics (Metr, MetrDesign) checked with TLC + conformance of recorded uses and explored schedules (MetrTrace)',
  'Exhaustive for 3 threads in the specification, with refuted mutants; seeded random uses of the code and explored schedules of 2-3 threads. '
  'Within one factory a Prometheus name has one kind and one set of labels.')
P('C31', 'Errors are logged at most once per interval, and then heard',
  'An error that is reported more than an interval after the last logged one (or after the start) is logged with its arguments; '
  'any other is not, and postpones nothing. This holds for errors from any number of threads; without logger nothing is logged.',
  ['histories', 'schedules'], 'all times of errors, intervals and interleavings of threads',
  'Tests report one error, with the time of the last message overwritten.',
  ['jaeger_client/utils.py'],
  [('error reporting', 'utils.py ErrorReporter.error')],
  'TLA+ specification (ErrDesign) checked with TLC + replay of its behaviours, random histories and explored schedules on the code (ErrTrace)',
  'Exhaustive for 2 threads and 5 errors in the specification, with refuted mutants; virtual time on the code; clocks that are not set back.')
P('C32', 'Requests and datagrams for the agent are exact',
  'A request for strategies or credits is one GET of the right host, port and path with its own timeout, whose query decodes to exactly '
  'the given service, client id and operations in order, whatever characters they have; requests of the application on the same '
  'loop are unaffected. What is written between two flushes is one datagram to the agent, also after failed sends; discarded data is never sent.',
  ['inputs', 'histories', 'fault_sequences'], 'all texts, timeouts, hosts, address families, and sequences of writes, flushes, failures and discards',
  'Tests request with one plain service name from a client of their own.',
  ['jaeger_client/local_agent_net.py', 'jaeger_client/TUDPTransport.py'],
  [('requests', 'local_agent_net.py LocalAgentHTTP._request'), ('buffer', 'local_agent_net.py LocalAgentSender'), ('socket', 'TUDPTransport.py TUDPTransport')],
  'TLA+ specification of the channel (Agent: query decoding, buffer) evaluated by TLC on recorded uses of the code (AgentTrace)',
  'Hand-picked texts and seeded random sequences; HTTP client and sockets are replaced by recording ones below the code.')
P('C33', 'Process tags name this machine',
  'The address tag of a tracer is what the name of the machine resolves to, or, if that is a loopback address or fails, the address of '
  'its first network interface, or else of a socket to the outside; the other tags are the name of the machine and the version of the client. '
  'Given tags win; no failure of these lookups makes building a tracer fail.',
  ['configurations', 'fault_sequences'], 'all combinations of names, resolutions, interfaces and routes',
  'Tests see the machine they run on.',
  ['jaeger_client/utils.py', 'jaeger_client/tracer.py'],
  [('address', 'utils.py local_ip'), ('interfaces', 'utils.py get_local_ip_by_interfaces'), ('tags', 'tracer.py Tracer.__init__')],
  'TLA+ specification of the choice (Addr) evaluated by TLC on tracers made by the code on simulated machines (AddrTrace)',
  'All sets of at most 2 interfaces, 6 resolutions and 3 routes, also on machines whose name and localhost are unknown.')
P('C34', 'Crossdock services exchange traces and messages without loss',
  'Any request or response between crossdock services, however nested, is the same after it went through its JSON form, which leaves '
  'out absent optional parts and ignores unknown ones. The end-to-end service answers once, with exactly the requested number of finished '
  'spans of the operation and tags, by the requested tracer. The agent\'s address is the configured one if it is well-formed, and the default otherwise.',
  ['inputs'], 'all messages, requests and addresses',
  'Most tests of these services need packages that are not there and are skipped.',
  ['crossdock/server/serializer.py', 'crossdock/server/endtoend.py'],
  [('messages', 'serializer.py traced_service_object_to_json'), ('handler', 'endtoend.py EndToEndHandler.generate_traces'),
   ('address', 'endtoend.py _parse_host_port')],
  'TLA+ specification of messages and handler (Cross) evaluated by TLC on recorded uses of the code (CrossTrace)',
  'Seeded random messages nested up to 3 deep, requests and addresses. The service for HTTP and TChannel itself cannot be imported here.')
P('C35', 'Closing a tracer ends its polls and delivers its spans',
  'Closing a tracer, from any thread and event loop, ends its requests for sampling strategies and credits, and every sampled span finished '
  'before it reaches the agent. The future of each close (however often it is called) completes, not before those spans are sent and in the '
  'event loop of its caller, and a caller that stops waiting for one disturbs nothing. Spans finished later are harmless and send nothing; until it '
  'is closed, requests and flushes keep their intervals.',
  ['schedules', 'histories'], 'all uses of tracers, threads and event loops closing them',
  'Tests close single parts, on the loop they run on, and once.',
  ['jaeger_client/tracer.py', 'jaeger_client/reporter.py', 'jaeger_client/sampler.py', 'jaeger_client/throttler.py', 'jaeger_client/local_agent_net.py',
   'jaeger_client/ioloop_util.py'],
  [('closing', 'tracer.py Tracer.close'), ('delivery', 'reporter.py Reporter.close'), ('polls', 'sampler.py RemoteControlledSampler.close, throttler.py RemoteThrottler.close')],
  'TLA+ specification of the closing (Life) model-checked; sequences of uses it generates are replayed on tracers of all kinds and judged by TLC (LifeTrace)',
  'Virtual time for sequences of up to 12 uses; real threads for closing. A composite reporter is closed only with a running event loop (known finding of C07).')
P('C36', 'Tracers of one process are independent',
  'Tracers that live in one process, however they were made (also from one configuration or set of tags that is changed in between), each keep '
  'their own headers, ids, sampling, process tags, limits, counters, active span and agent: what is done with one is visible at no other, and '
  'closing one leaves the others working. A context goes from one to the other only as a given parent or in a carrier both of them understand.',
  ['histories'], 'all interleaved uses of several tracers',
  'Tests use one tracer at a time.',
  ['jaeger_client/tracer.py', 'jaeger_client/config.py', 'jaeger_client/reporter.py', 'jaeger_client/codecs.py', 'jaeger_client/span.py'],
  [('parts of its own', 'tracer.py Tracer.__init__'), ('configuration', 'config.py Config.create_tracer')],
  'TLA+ specification of several tracers (Pair) model-checked (PairDesign); interleavings it generates are replayed on tracers of random configurations and judged by TLC (PairTrace)',
  'Three tracers, 16 uses each; one thread.')
P('C37', 'An exception that leaves a span is recorded and passes on',
  'If an exception leaves the block of a span or of an active span ("with"), it reaches the caller unchanged, the span (if sampled) has the error tag '
  'and one log with the message, kind, object and traceback of exactly that exception before it is reported, limited in length as configured. '
  'However blocks are nested, left or finished early, each span is reported once, and the span that was active before a block is active after it.',
  ['inputs', 'histories'], 'all nestings of blocks, exceptions and places where they are caught',
  'Tests raise one exception in one block.',
  ['jaeger_client/span.py', 'jaeger_client/tracer.py', 'jaeger_client/thrift.py'],
  [('finishing', 'span.py Span.finish'), ('records', 'span.py Span.log_kv, thrift.py make_log'), ('scopes', 'tracer.py Tracer.start_active_span')],
  'TLA+ specification of blocks and unwinding (Exc) model-checked (ExcDesign); programs it generates run as real with statements, judged by TLC (ExcTrace)',
  'Programs of 14 commands, 5 spans, 5 nested blocks; one thread; the scope manager for threads.')
P('C38', 'A trace that crosses services arrives as one tree',
  'However requests travel between services (in any carrier format, with Jaeger or B3 headers, repeated, late, out of order, or stripped of headers by '
  'proxies), what the agents receive is one tree per trace: every finished sampled span arrives once, from its service, with the trace id of its root, '
  'the span that caused it as parent, and the decision made at the root unless overridden on the way. Each span sees exactly the baggage that its '
  'causes had when it was caused, and the sampler is asked for roots only.',
  ['histories', 'configurations'], 'all exchanges of requests between services of one deployment',
  'Tests inject and extract single contexts and look at single spans.',
  ['jaeger_client/tracer.py', 'jaeger_client/codecs.py', 'jaeger_client/span.py', 'jaeger_client/thrift.py', 'jaeger_client/reporter.py'],
  [('causality', 'tracer.py Tracer.start_span'), ('carriers', 'codecs.py TextCodec, BinaryCodec, B3Codec'), ('arrival', 'thrift.py make_jaeger_span')],
  'TLA+ specification of requests between services (Hop) model-checked (HopDesign); exchanges it generates are replayed on real tracers, and what agents receive is judged by TLC (HopTrace)',
  'Up to 5 services, 20 spans and 14 messages. Debug contexts in B3 HTTP headers are left out (known finding of C18).')
