#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,q,why,files,mech,observe,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
C='paladin-core/src/'
FOLD=C+'directive/indexed_stream/foldable.rs'
MAP=C+'directive/indexed_stream/functor.rs'
LIT=C+'directive/literal/functor.rs'
RT=C+'runtime/mod.rs'
INMEM=C+'queue/in_memory.rs'
COORD=C+'channel/coordinated_channel/'
ERR=C+'operation/error.rs'
DER='paladin-opkind-derive/src/lib.rs'
TASK=C+'task/mod.rs'
AMQP=C+'queue/amqp.rs'

prop('C01','Distributed map equals local map',
 "Mapping an operation over any finite input (a single literal or an indexed stream, possibly several maps in a row) yields exactly one output per input element, equal to what the operation computes locally on that element and paired with that element's index; sorting the values by index gives them in index order. This does not depend on how many workers there are, which serializer is configured, in which order the tasks are executed or in which order and with what spacing their results arrive.",
 ['inputs','programs','schedules','configurations'],
 'all element values and types that serialize, all index assignments, all input lengths, all chains of maps, all execution and arrival orders, both serializers, any worker count >= 1',
 'The doc tests map three to five integers with the emulator and whatever order it happens to produce; no test varies element types, indices, lengths beyond a handful, arrival orders or serializer.',
 [MAP,LIT,C+'directive/indexed_stream/mod.rs',C+'directive/mod.rs',RT],
 [('task metadata carries the element index and is echoed by the worker',MAP),('coordinated channel ends the result stream after the last acknowledged result',COORD+'coordinated_stream.rs'),('sorting of collected pairs by index',C+'directive/indexed_stream/mod.rs')],
 ['Directive::run','IndexedStream::into_values_sorted','Stream items of IndexedStream'],
 'Runtime::verif_worker (a worker whose execution and result order the harness owns)')
prop('C02','Distributed fold equals the in-order reduction',
 "Folding any finite indexed stream (contiguous distinct indices, delivered in any order) with an associative, not necessarily commutative operation returns the combination of the elements in index order; an empty input returns the identity and a single element is returned as is, neither executing any combination. A fold of n elements executes exactly n-1 combinations, each of two adjacent segments with the lower-indexed segment as the left operand.",
 ['inputs','schedules','configurations'],
 'all input lengths, element values, monoids, delivery orders of the input, and orders and timings in which combinations are executed and their results arrive',
 'The doc tests fold at most a handful of integers with commutative operations (sums, products), for which a wrong operand order or a skipped element in an unusual arrival order cannot be seen.',
 [FOLD,C+'contiguous/queue.rs'],
 [('pairing of contiguous partial results',C+'contiguous/queue.rs'),('dispatch of a pair once it is available',FOLD),('recognition of the final result by the length of its range',FOLD)],
 ['Directive::fold(..).run','combine calls seen by the worker'],
 'Runtime::verif_worker')
prop('C03','Directives over finite inputs always complete',
 "A map or fold over a finite input whose tasks all get executed completes: the fold returns and the mapped stream yields all its elements and then ends. This holds whatever the pacing of the input items, whenever the end of the input becomes known relative to the results, however results are bunched together or spaced out, and however slowly or from whichever task the caller polls for results. A mapped stream yields each result once its task has been executed, also while the input is still open, so that an input may depend on earlier results.",
 ['schedules','inputs'],
 'all interleavings of input arrival, end of input, task execution, result arrival and consumer polling',
 'Tests feed inputs from ready iterators, so the end of the input is always known before the first result arrives and the consumer always polls eagerly; a lost wake-up or an unnoticed final result cannot occur there.',
 [FOLD,MAP,LIT,COORD+'mod.rs',COORD+'coordinated_stream.rs'],
 [('final result detection against the resolved input size',FOLD),('wake-up of the result stream on close and last acknowledgement',COORD+'mod.rs'),('select of sender and result streams',MAP)],
 ['completion of Directive::run and of the returned stream under a virtual clock'],
 'Runtime::verif_worker',
 [('resolved input size','number of inputs, once known',FOLD),('pending sends','published but unacknowledged messages',COORD+'mod.rs')])
prop('C04','A failing task or input fails the directive with its error',
 "If any operation execution ends in a fatal error with the terminate strategy (returned as such, left over from exhausted retries, or caused by a panic), if the input stream yields an error, or if a value cannot be serialized or deserialized, then running the directive (and draining the stream it returns) reports an error that carries the message of a failure that occurred. It neither hangs nor reports success with missing, duplicated or altered elements.",
 ['fault_sequences','inputs','schedules'],
 'all kinds and positions of failures, also several at once, in maps, chained maps, folds and literals, for all worker counts and input lengths',
 'The doc tests cover an operation that always fails and one input error at a fixed position; failures at particular positions, in later stages, on the encode/decode paths or combined with others are not reached.',
 [RT,TASK,DER,FOLD,MAP,LIT,C+'queue/publisher.rs'],
 [('fatal results are routed to the requester as error results',RT),('panics are caught and turned into fatal errors',DER),('send errors are forwarded into the output stream',MAP)],
 ['Result of Directive::run and of draining the stream'])
prop('C05','Retries follow the declared strategy',
 "An execution failing with a transient error is repeated according to the retry strategy of that error until it succeeds or the strategy is exhausted, and a success at any permitted attempt is returned as if nothing had failed. The number of attempts is exactly the one the strategy permits, the delays between retries are the ones it declares (no delay, a fixed duration, or growing but bounded in total), a tracer sees every failure that is retried, exhaustion yields a fatal error with the last error's message and the declared fatal strategy, and an error that is fatal at once is never retried.",
 ['fault_sequences','inputs'],
 'all strategies, retry counts, durations, numbers of failures before success and fatal strategies',
 'The doc tests exercise one immediate strategy with three retries; fixed-delay and exponential strategies, boundary counts, tracing and the propagated fatal strategy are untested.',
 [ERR,DER],
 [('attempt counting and delays',ERR),('conversion of an exhausted transient error into a fatal one',ERR),('retry of a failed remote execution',DER)],
 ['OperationError::retry / retry_trace','RetryStrategy::retry','attempt log of a remotely executed operation'])
prop('C06','An ignored failure leaves the other tasks alone',
 "When an execution ends in a fatal error with the ignore strategy, no result is sent for that task, no worker stops, and all other tasks of the same job and of other jobs are still executed and their results delivered. In particular a mapped stream yields the results of exactly the elements that did not fail.",
 ['fault_sequences','schedules'],
 'all sets of ignored failures, worker counts, orders of execution and numbers of concurrent jobs',
 'No test uses the ignore strategy with more than one task; whether the rest of the job continues depends on which worker executes what afterwards.',
 [RT,ERR],
 [('dispatch of fatal errors by strategy',RT),('set of terminated jobs kept by a worker',RT)],
 ['results received by the leader','tasks executed by the workers'],
 None,[('terminated jobs','jobs whose tasks a worker skips',RT)])
prop('C07','Jobs on one runtime are isolated from each other',
 "Any number of directives, of the same or different operations, run concurrently or one after another on the same runtime each obtain exactly the results of their own tasks. A directive that is dropped midway, or whose result stream is abandoned, affects no other job.",
 ['schedules','histories','programs'],
 'all sets of concurrent jobs, start times, cancellation points and execution orders',
 'Every test runs a single directive on a fresh runtime.',
 [RT,C+'channel/queue.rs',C+'common/mod.rs',C+'channel/mod.rs'],
 [('a freshly issued, uniquely named result channel per directive',RT),('release of the result channel when the lease is dropped',C+'channel/mod.rs')],
 ['results of concurrently run directives'],'Runtime::verif_worker')
prop('C08','A serialized task executes exactly the operation it was built from',
 "Executing a task in its opaque serialized form runs the operation the task was created with, with that operation's own parameters and the given input, and returns its output along with the task's metadata unchanged, for any number of operations defined in any modules and crates linked into the program. A task naming an operation that does not exist, or carrying an undecodable operation or input, results in a fatal error and not in a panic or in the execution of another operation.",
 ['programs','inputs'],
 'all operations registered in a program, whichever module or crate defines them, all parameters, inputs, metadata, serializers, and malformed tasks',
 'Unit and doc tests define one or two operations per binary, all in one module, which hides any dependence on how operations from several modules and crates are numbered and laid out.',
 [DER,TASK,C+'lib.rs',C+'operation/mod.rs'],
 [('derive macro assigning identifiers and registering executors',DER),('lookup of the executor by identifier',TASK)],
 ['AnyTask::remote_execute','Task::as_any_task'])
prop('C09','Serialization round-trips and decoding never panics',
 "For both serializers every value of a supported type decodes from its encoding to an equal value, including the messages the system itself exchanges (tasks, results, commands) and the conversion of typed tasks and results to their opaque forms and back. Decoding arbitrary, truncated or corrupted bytes returns a value or an error and never panics.",
 ['inputs','configurations'],
 'all values (integers at their limits, floats, strings, bytes, nested collections, options, enums, maps) and all byte strings, both serializers',
 'No test decodes anything but what the emulator just encoded, for a few integer and string values.',
 [C+'serializer/mod.rs',TASK,RT],
 [('selection of the wire format',C+'serializer/mod.rs'),('typed to opaque conversions',TASK)],
 ['Serializer::to_bytes / from_bytes','Task::as_any_task','AnyTaskResult::into_task_result'])
prop('C10','In-memory exactly-once queues deliver each message once, in order',
 "Every message published to an exactly-once queue is delivered to exactly one of its consumers, exactly once and intact, whether it was published before or after the consumer was declared, and none is lost when a consumer that is waiting is dropped. Messages are handed out in the order they were published, and a consumer waiting on an empty queue is woken when a message arrives.",
 ['histories','schedules'],
 'all interleavings of publishing, declaring, polling and dropping by any number of publishers and consumers, also on parallel threads',
 'The unit tests check fixed scripts of a few operations with timeouts, mostly one consumer, and no controlled thread interleavings.',
 [INMEM],
 [('message queue paired with a counting semaphore',INMEM),('consumer acquiring one permit per message',INMEM)],
 ['items yielded by InMemoryConsumer'],'yield points around queue and atomic accesses (cfg paladin_verif)')
prop('C11','In-memory broadcast queues deliver every message to every consumer',
 "Every consumer declared on a broadcast queue receives each message published after its declaration exactly once and in the order of publication; consumers declared under the same name share one subscription. With persistent delivery, messages published while no consumer exists are delivered to the first consumer to be declared, with ephemeral delivery they are dropped; no consumer ever receives a message twice, even if it is declared while messages are being published.",
 ['histories','schedules','configurations'],
 'all interleavings of publishing, declaring and polling, delivery modes, numbers and names of consumers, also on parallel threads',
 'The unit tests check fixed scripts with up to a handful of consumers and uncontrolled concurrency.',
 [INMEM],
 [('per-consumer queues',INMEM),('history replay and per-consumer set of seen message ids',INMEM)],
 ['items yielded by each consumer'],'yield points around message id assignment and history (cfg paladin_verif)')
prop('C12','Queues and channels are identified by name',
 "Declaring a queue under a name that already exists yields that same queue, also through clones of the connection, while queues of different names share nothing; deleting a queue makes a later declaration of its name start empty, and deleting a name that does not exist is harmless. A channel obtained for an identifier reaches the queue of that identifier with the delivery semantics of the requested channel type, and every newly issued channel has an identifier of its own, among all those issued by any number of threads and processes.",
 ['histories','configurations'],
 'all sequences of declare, publish, consume, delete, get and issue over any names, options and connection clones, and any number of threads and processes that issue channels',
 'Unit tests declare one or two queues; nothing tests deletion, clones or uniqueness of identifiers in bulk.',
 [INMEM,C+'channel/queue.rs',C+'queue/mod.rs',C+'common/mod.rs',C+'runtime/dynamic_channel.rs'],
 [('map from names to queues shared among clones',INMEM),('random identifiers',C+'common/mod.rs'),('channel type to queue options mapping',C+'channel/queue.rs')],
 ['Connection, QueueHandle, Channel and ChannelFactory APIs'])
prop('C13','A coordinated channel ends exactly when all its work is done',
 "The receiving end of a coordinated channel yields every successfully published item, and ends once the sender has been closed or dropped and all published items have been received and acknowledged (or rejected); it does not end before that, and a receiver waiting for it is woken. Publishing after the channel has been closed fails, and a publish that fails does not count as outstanding.",
 ['schedules','histories','fault_sequences'],
 'all interleavings of publishing (also failing), closing, dropping, polling from changing tasks, and acknowledging in any order, repeatedly, or late, by any number of threads',
 'There are no tests for this module; directives exercise a single benign interleaving in which the sender is closed before the receiver waits.',
 [COORD+'mod.rs',COORD+'coordinated_publisher.rs',COORD+'coordinated_stream.rs'],
 [('shared closed flag and pending-send counter',COORD+'mod.rs'),('acknowledgement handle',COORD+'coordinated_stream.rs')],
 ['poll results and wake-ups of the stream','results of publish'],'instrumented atomics (cfg paladin_verif)',
 [('closed','sender closed or dropped',COORD+'mod.rs'),('num_pending_sends','published and not yet acknowledged',COORD+'mod.rs')])
prop('C14','The contiguous queue pairs adjacent values and conserves them',
 "Offering a value to the contiguous queue returns it together with a queued neighbour, in index order, if a contiguous neighbour is queued, and otherwise queues it; the neighbour is removed from the queue and everything else stays. No value is ever lost, duplicated or paired with a non-adjacent one, also when several threads use the queue at the same time.",
 ['histories','schedules','inputs'],
 'all sets of disjoint ranges, offering orders, look-ups, removals and thread interleavings',
 'The unit tests look up a few literal ranges sequentially.',
 [C+'contiguous/queue.rs'],
 [('ordered map probed at both sides of the key',C+'contiguous/queue.rs'),('atomic take of the value cell',C+'contiguous/queue.rs')],
 ['return values of acquire_contiguous_pair_or_queue, find_contiguous, queue, dequeue'],'instrumented skip map and cells (cfg paladin_verif)')
prop('C15','Acknowledgement handles compose faithfully',
 "A composed acknowledgement acknowledges its second part if and only if acknowledging the first succeeded, reports the first failure, and treats rejection the same way; boxed and shared handles behave exactly like the handle they contain. Acknowledging or rejecting a message of a coordinated channel any number of times counts once.",
 ['fault_sequences','histories'],
 'all nestings of handles, all failure patterns and call sequences',
 'No test has an acknowledgement fail or be repeated.',
 [C+'acker.rs',COORD+'coordinated_stream.rs'],
 [('sequencing of the two handles',C+'acker.rs'),('once-only flag',COORD+'coordinated_stream.rs')],
 ['calls seen by the innermost handles and results of ack/nack'])
prop('C16','Leased result channels are released exactly once',
 "A lease passes its contained stream through unchanged, and when it is dropped, at whatever point, it releases its channel exactly once and not earlier. After a directive has completed, and its output has been consumed, none of the queues created for its results remain.",
 ['histories','schedules','crash_points'],
 'all points at which the lease can be dropped, all directives and their outcomes',
 'No test observes the release of a channel or counts the queues left behind.',
 [C+'channel/mod.rs',C+'channel/queue.rs',RT,INMEM],
 [('lease guard with drop handler',C+'channel/mod.rs'),('deletion of the queue on release',C+'channel/queue.rs')],
 ['release calls','names of the queues existing in the connection'],'Runtime::verif_queue_names')
prop('C17','Abort commands stop what they address and nothing else',
 "After an abort command for a job, a worker that has processed it discards that job's tasks arriving within the following minute without executing them or answering, and continues to execute the tasks of other jobs. After an abort-all command, the abort signal given to the operation being executed becomes set, however many other abort commands precede or follow it, no answer is sent for that execution and the worker's main loop ends after a grace period; a fatal failure in terminate mode triggers the same on every worker.",
 ['histories','schedules','fault_sequences'],
 'all sequences and timings of abort commands relative to the arrival and execution of tasks, any number of workers and jobs',
 'One unit test sends abort-all to workers that are all executing; job-specific aborts, sequences of commands and timing relative to task arrival are not covered.',
 [RT],
 [('command listener',RT),('set of terminated jobs',RT),('watch channel signalling the running task',RT)],
 ['abort signal inside operations','results received','return of WorkerRuntime::main_loop'],'Runtime::verif_worker')
prop('C18','Publisher adapters forward every item exactly once',
 "A publisher adapted with a transformation publishes exactly the transformed item for every item, and nothing if the transformation fails; boxed and pinned publishers behave like the publisher they contain, also for closing. Publishing a whole stream publishes each of its items exactly once, never has more publishes in flight than the given limit, finishes only after all of them have, and fails if and only if the stream or one of the publishes does.",
 ['inputs','fault_sequences','schedules'],
 'all item sequences, stream and publish failures, latencies of individual publishes, limits and adapter nestings',
 'Adapters are only exercised indirectly with ready futures that never fail.',
 [C+'queue/publisher.rs'],
 [('transformation before delegation',C+'queue/publisher.rs'),('bounded concurrent iteration',C+'queue/publisher.rs')],
 ['calls seen by the innermost publisher'])
prop('C19','Configuration is resolved as documented',
 "Each option takes the value given on the command line, else that of its environment variable, else its documented default (postcard, AMQP, no explicit worker count, no URI, default task bus); an AMQP configuration without URI is rejected with an error, and unknown or malformed values are rejected. The runtime built from a configuration uses the configured backend, serializer, number of emulated workers and task routing key.",
 ['configurations'],
 'all combinations of options, spellings, environment variables and invalid values',
 'No test parses a configuration, and all tests use the default in-memory runtime.',
 [C+'config/mod.rs',C+'runtime/dynamic_channel.rs',RT,C+'serializer/mod.rs'],
 [('argument definitions',C+'config/mod.rs'),('construction of the channel factory',C+'runtime/dynamic_channel.rs')],
 ['parsed Config','Runtime::from_config','queues and workers of the runtime'],'Runtime::verif_queue_names')
prop('C20','The AMQP backend gives the same guarantees as the in-memory one',
 "Connected to an AMQP broker, exactly-once queues deliver every published message intact to exactly one consumer, a message is removed from the broker when it is acknowledged or rejected and not before, an undecodable message does not keep a consumer from receiving later messages, no consumer is sent more unacknowledged messages than its limit, queues and messages have the requested durability, queues can be declared and deleted concurrently, and maps and folds executed by separately connected workers return the same results as local execution. A task whose worker is lost before it finished is executed by another worker. Retries, ignored failures, failures that terminate and abort commands take the same effect as in memory, and every task they concern is settled at the broker.",
 ['histories','crash_points','inputs','configurations'],
 'all message sequences, acknowledgement orders, poison messages, worker losses during execution, numbers of workers, and both serializers',
 'No test touches the AMQP code: it needs a broker.',
 [AMQP,RT,C+'runtime/dynamic_channel.rs',C+'channel/queue.rs'],
 [('mapping of queues, publishers, consumers and ackers to AMQP methods',AMQP),('acknowledgement after execution',RT)],
 ['frames seen by a broker stand-in on the loopback interface','results of directives'])
prop('C21','AMQP broadcast queues deliver every message to every consumer',
 "On the AMQP backend every consumer of a broadcast queue receives each message published after its declaration, so that an abort-all command reaches all workers and not just one of them.",
 ['histories','configurations'],
 'all numbers of consumers and publishers, connections, and sequences of publishing and consuming',
 'No test touches the AMQP code: it needs a broker.',
 [AMQP],
 [('fanout exchange and queue bindings',AMQP)],
 ['deliveries at each consumer connected to a broker stand-in'])
prop('C22','A worker answers every task exactly once on its own routing key',
 "For every task it accepts, a running worker sends exactly one message to the routing key of that task and none to any other: the output with the task's metadata if the execution succeeded, or the error message if it failed for good in terminate mode. It sends that answer only after the execution has ended, executes each task once (retries aside), acknowledges or rejects each task exactly once, and executes no more than one task at a time.",
 ['inputs','histories','fault_sequences'],
 'all sequences of tasks with any mix of routing keys, operations, metadata and outcomes, and any number of workers',
 'Tests observe workers only through directives, which share a single routing key and ignore surplus or misrouted answers.',
 [RT,TASK,DER],
 [('worker main loop',RT),('dispatch of outcomes',RT)],
 ['messages on result queues','execution log of operations','acknowledgements'],'Runtime::verif_worker')
prop('C23','Runtimes and workers that are gone leave nothing running',
 "After an in-memory runtime has been dropped, at whatever point, its emulated workers begin no further execution of any operation and none of their background tasks keeps running. Closing or dropping an AMQP runtime ends its connection to the broker, and using a closed one reports an error instead of hanging. When the main loop of an AMQP worker is dropped, its connection ends and the task it was executing is executed by another worker. Other runtimes and workers are not affected.",
 ['crash_points','histories','configurations'],
 'all points at which a runtime or worker is dropped (before its workers have started, idle, during executions, between retries, with tasks waiting or results unread, after abort commands), and all numbers of workers',
 'Tests end when a runtime is dropped: whatever it leaves behind goes unnoticed.',
 [RT,AMQP,C+'channel/queue.rs',C+'runtime/dynamic_channel.rs'],
 [('dropping a runtime',RT),('background tasks of the main loop',RT),('closing a connection',AMQP)],
 ['execution log of operations','number of tasks alive in the executor','connections seen by a broker stand-in'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
