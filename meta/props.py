NOTE = ("Bounded exhaustive: for every value and every modelled schedule within the stated bounds the solver "
        "shows that no assertion can fail on the code compiled from the current source; counterexamples are replayed natively. "
        "Trusts the engine's translation of Go SSA, z3, and the listed stand-ins.")
PROPS = []
def P(id, title, statement, over, forall, why, files, mech, bounds, note=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why,
                      files=files, mech=mech, bounds=bounds, note=note))

P('P01', 'The signing quorum is the smallest two-thirds majority of the committee',
  'For a committee of n parties, the number of parties that must cooperate (threshold plus one) is the smallest number that is at least two thirds of n. It is at least 1 and never more than n.',
  ['inputs'], 'every committee size n from 1 to 1 000 000 000 (to 150 where the code counts up to its result)',
  'A test can try a few sizes; rounding mistakes show only for some residues or for large sizes.',
  ['utils/misc.go'], [('threshold computation', 'utils/misc.go')],
  {'threshold': 'every n, 1<=n<=10^9 (64-bit integers and IEEE doubles bit-precisely)', 'small': 'every n, 1<=n<=150 (thorough 600), also for code that counts'})
P('P02', 'Queued work is served by priority, then first come first served, none lost',
  'A work request that is accepted is handed out exactly once. Requests of higher priority are handed out first, key generations before signings, and requests of one priority in the order of submission. A request whose id is already waiting is refused and changes nothing.',
  ['histories', 'inputs'], 'every history of submissions and removals within the bounds, with arbitrary ids and work kinds',
  'The tests run two hand-made sequences; losses depend on where in the queue an insertion lands, that is on the whole history.',
  ['core/request_queue.go', 'worker/types/work_request.go'], [('ordered insertion and removal', 'core/request_queue.go'), ('priority of work kinds', 'worker/types/work_request.go')],
  {'history': 'every history of <=5 (thorough 7) operations over arbitrary one-byte ids and all four work kinds'})
P('P03', 'Recently sent or received messages stay retrievable for recovery',
  'A message that a node keeps for recovery is retrievable by its key, in its latest version, until the capacity for its sender is used up by newer messages of the same sender. Messages of one sender never displace or replace those of another. The node keeps more of its own messages than of any other.',
  ['histories', 'inputs'], 'every history of additions and lookups within the bounds with arbitrary (also repeated) keys',
  'Tests add a few distinct keys; wrong evictions need repeated keys at particular distances.',
  ['tools/circular_queue.go', 'core/cache/work_message_cache.go'], [('bounded queue', 'tools/circular_queue.go'), ('per-sender caches', 'core/cache/work_message_cache.go')],
  {'queue': 'capacity <=3 (thorough 4), 5 (6) additions, arbitrary pattern of repeated keys', 'size': 'every non-positive 64-bit size',
   'per_sender': 'capacity 2, 4 (thorough 5) additions by arbitrary senders under arbitrary keys', 'own': 'capacity 1..2, own capacity boundary'})
P('P04', 'Messages arriving before their work starts are kept, in order, per sender',
  'Messages for a work that has not started are all returned, each once, when the work starts, and in the order of arrival for each sender. Messages of other works stay untouched. Only when one sender exceeds its allowance are its oldest messages dropped, never those of another sender.',
  ['histories', 'inputs'], 'every history of arrivals, lookups and removals within the bounds',
  'Tests use one sender and few messages; corruption needs several senders and works interleaved.',
  ['core/cache/message_cache.go'], [('early message cache', 'core/cache/message_cache.go')],
  {'history': 'every history of 4 (thorough 5) operations, senders and works arbitrary', 'limit': '65..66 messages of one sender among those of another, every drop position'})
P('P05', 'All nodes elect the same leader for a work, and leadership rotates',
  'For a given work all nodes elect the same committee member as leader whatever order they list the committee in. The result depends only on the work and the committee. Different works can elect different members.',
  ['inputs', 'configurations'], 'every committee within the bounds in every order, every work id, every outcome of the hash',
  'Tests sample a handful of ids; disagreement needs a particular order of the digests.',
  ['worker/helper.go'], [('leader election by hashing', 'worker/helper.go')],
  {'agree': 'committees of <=3 (thorough 4) parties in every two orders; SHA-256 an arbitrary injective function', 'rotates': '3 parties, existential witnesses'},
  'As the general note; additionally SHA-256 is replaced by an arbitrary injective function (its collision resistance is assumed).')
P('P06', 'A message key identifies exactly one work, sender, destination and kind',
  'Encoding work, sender, destination and kind into a key and decoding it gives back the same values, and different combinations have different keys. A text that is not such a key is refused rather than decoded into something else.',
  ['inputs'], 'every byte content of the fields within the length bounds',
  'Tests check one key; ambiguity needs fields containing particular bytes.',
  ['types/common/tss_message.go'], [('key format', 'types/common/tss_message.go')],
  {'roundtrip': 'fields of 1..3 (thorough 4) arbitrary bytes without the separator', 'distinct': 'two combinations, fields of 1..2 bytes', 'fields': 'single-message update envelopes', 'malformed': 'every text of <=9 (thorough 12) bytes'})
P('P07', 'Blame names exactly the parties that were silent or misbehaved',
  'The culprits of a round are exactly those participants that sent nothing in that round or were reported in it, each once. Culprits of the time before execution are exactly those reported there. Reports about one work never blame anybody in another work.',
  ['histories', 'inputs'], 'every history of reports within the bounds about arbitrary works, rounds and parties',
  'Tests fill in one fixed history; mix-ups need several works and rounds.',
  ['blame/manager.go'], [('per work and round bookkeeping', 'blame/manager.go')],
  {'rounds': '3 (thorough 4) reports over 3 parties and 2 works, arbitrary rounds', 'before_execution': '3 (thorough 4) reports', 'keys': 'one report; 8 names of works and 4 rounds that look alike when put together'})
P('P08', 'Messages on the wire carry exactly what the sender put in',
  'Every control message carries the kind, sender, destination, work and body it was built from. A batch of protocol messages is carried complete and in batch order. If one message of a batch cannot be serialised, nothing is sent.',
  ['inputs'], 'every content of the fields within the length bounds',
  'Tests do not look at most fields (an availability answer was hard-wired).',
  ['types/common/tss_message.go', 'types/common/tss_message.pb.go'], [('constructors', 'types/common/tss_message.go')],
  {'control': 'arbitrary one-byte strings, <=2 participants and presigns, arbitrary answers and outcomes', 'update': 'batches of 1..3 messages, arbitrary payload bytes, arbitrary position of a failing one'})
P('P09', 'Every protocol message is attributed to its own protocol round',
  'Each message of the key generation, presigning and signing protocols is attributed to the round in which the protocol sends it, and unknown messages to none. A message is recovered from everybody exactly if the protocol broadcasts it. The messages awaited from a peer are those the protocol makes it send, in order.',
  ['inputs'], 'every protocol message of the implemented protocols',
  'Tests check two kinds; an error in one entry hits only a recovery or a blame in that round.',
  ['core/message/tss_phase_messages.go'], [('tables of protocol messages', 'core/message/tss_phase_messages.go')],
  {'rounds': 'all 18 message types of the protocols plus an unknown one', 'broadcast': 'all 18 message types', 'expected': 'all four kinds of work'})
P('P10', 'The leader runs a work only with a large enough, willing, capable committee',
  'When the leader starts a work it does so with exactly as many distinct members as the work needs, all of which answered that they are available, itself included unless shared presign data exclude it. A signing uses presign data only if the chosen members own them. All others are told the same outcome, and if too few answer in time everybody is told that the selection failed.',
  ['schedules', 'inputs', 'histories', 'configurations'], 'every set and order of answers, timing of the timeout and content of the presign store within the bounds',
  'Tests use all-yes answers in one order; wrong committees need particular answers, thresholds and stores.',
  ['worker/prework_selection.go', 'worker/available_parties.go', 'core/components/available_presign_manager.go'],
  [('collecting answers', 'worker/prework_selection.go'), ('set of available parties', 'worker/available_parties.go')],
  {'leader3': '3 parties, leader at index 1, thresholds 1..2, <=1 answer before and <=2 after the start, batch 1..2, all four work kinds, arbitrary store'})
P('P11', 'A member joins only a valid committee announced by the elected leader',
  'A member joins a work only on the announcement of the elected leader, with the announced members being distinct committee members, as many as the work needs. Presign data are accepted only if the member has data for every message to sign. Anything else, also silence of the leader, ends in failure, and a member that is not selected does not take part.',
  ['schedules', 'inputs', 'histories'], 'every announcement within the bounds, from any sender, before or after the start',
  'Tests send one valid announcement; the bad ones are unlimited.',
  ['worker/prework_selection.go'], [('validation of the outcome', 'worker/prework_selection.go')],
  {'member3': '3 parties, member index 1, leader index 2, <=3 (thorough 4) announced ids, <=3 presign ids, batch 1..2, early results also repeated'})
P('P12', 'A committee selection ends exactly once and never blocks message delivery',
  'The selection of the committee of a work ends with exactly one outcome, whatever selection messages arrive, how often and when. Delivering such a message to the selection, before, during or after it, returns without waiting for anything.',
  ['schedules', 'inputs', 'histories'], 'every sequence of selection messages within the bounds, delivered early, one by one or concurrently, and every interleaving with the selection',
  'Tests deliver the expected messages once; a blocked network thread needs a late or repeated message.',
  ['worker/prework_selection.go'], [('delivery to the selection', 'worker/prework_selection.go'), ('announcing the outcome', 'worker/prework_selection.go')],
  {'outcome': '2 (thorough 3) parties, leader or member, 3 arbitrary selection messages, of which <=1 early; in sequence or 2 concurrently; thorough: also one preemption', 'flood': '2 (thorough 3) parties, 5 (6) answers of members to the leader, each yes or no, in sequence or concurrently, in time or after the end'})
P('P13', 'Presign data are handed out at most once, only with all their owners available',
  'A signing gets either as many unused presigns as it has messages, all of one group of owners who are all available, or none. A presign is handed out at most once, also to concurrent requests, and only after it is durably marked as used. A request always returns, and finds presigns if enough of them exist.',
  ['schedules', 'inputs', 'histories'], 'every store content, sequence of requests, pair of concurrent requests and database failure within the bounds',
  'Tests ask once; a hand-out race or an exhausted store needs concurrency and several requests.',
  ['core/components/available_presign_manager.go'], [('selection and removal from the store', 'core/components/available_presign_manager.go')],
  {'history': 'store of 1..2 old and <=2 new presigns of 3 owner groups, 2 (thorough 3) requests of 1..2, arbitrary availability, failures to save and to mark, every iteration order of the store',
   'concurrent': 'store of 1..3 presigns, 2 concurrent requests of 1..2 or one with the arrival of a new presign, one (thorough two) preemptions, race detection', 'groups': '2 (thorough 3) presigns, old or new, of 5 owner groups of 2 to 4 of 4 parties that contain each other, any set of available parties'})
P('P14', 'A stalled protocol asks exactly for the messages that are missing',
  'When messages of a running work stop arriving, the node asks the other members exactly for those messages up to the current phase that they have not sent, or for the next phase of all if none is missing. Nothing is asked while messages keep arriving, when all have arrived or after the end of the work.',
  ['histories', 'inputs', 'schedules'], 'every history of received messages within the bounds followed by silence',
  'Tests stop one message; wrong recovery needs several members in different phases.',
  ['worker/components/message_monitor.go'], [('message monitor', 'worker/components/message_monitor.go')],
  {'silence': 'all four kinds of work, 3 parties, <=3 (thorough 4) messages of 2 (thorough 3) kinds or unknown, from members, itself or a stranger, 25 s apart', 'complete': '2 parties, <=4 messages of the other, of the first 4 kinds'})
P('P15', 'A protocol job delivers its messages in order and ends with exactly one result',
  'A job hands on every message of its protocol instance exactly once and in order, also those that still wait when the protocol has its result. It reports exactly one outcome: the result of the protocol, the error of a failed start, or a timeout when the protocol stalls.',
  ['schedules', 'inputs'], 'every position of one slow delivery or of a stall, for every kind of job within the bounds',
  'The tests run fast fake protocols where the result always comes long after the last message.',
  ['worker/job.go'], [('event loop of a job', 'worker/job.go')],
  {'job': '3 (thorough 4) parties, all six kinds of job, one slow delivery at any message, a stall or error at any point'})
P('P16', 'A finished round of a batch is sent once, complete and in batch order',
  'The messages that the protocol instances of a batch produce for one round and destination are sent together exactly once, when all instances have produced theirs, in batch order and to exactly the right destination. If one cannot be serialised nothing of it is sent.',
  ['schedules', 'inputs'], 'every interleaving within the bounds of the outputs of a batch',
  'Tests use a single instance or run instances in step; mixing batches needs instances in different rounds.',
  ['worker/worker_executor.go'], [('collection of outputs', 'worker/worker_executor.go')],
  {'output': '3 parties, batch 1..2 (thorough 3), <=2 (3) rounds, broadcast and direct messages, instances in any relative order or concurrent, one preemption, race detection'})
P('P17', 'An execution ends with exactly one outcome, the right one, in batch order',
  'Executing a work ends with exactly one callback. It is a success with the results of all protocol instances in batch order if all of them succeed, and a failure otherwise, also if the stored inputs of the work cannot be loaded. Messages that a protocol instance refuses or that arrive late change nothing.',
  ['schedules', 'inputs', 'histories'], 'every outcome and order of ending of the instances within the bounds, and every failing load',
  'Tests let all instances succeed in order.',
  ['worker/worker_executor.go', 'worker/job.go'], [('ends of jobs', 'worker/worker_executor.go')],
  {'result': '2 (thorough 3) parties, batch 1..2 (3), any success or failure and order, one preemption, race detection, missing inputs, refused and late messages'})
P('P18', 'Protocol messages that arrive before the execution are processed exactly once',
  'Messages of a work that reach its worker before it is started, while the committee is being selected or while execution starts are processed exactly once, by the right protocol instance, and in the order of arrival, as if they had arrived after the start.',
  ['schedules', 'inputs'], 'every position of the messages relative to the phases of the work within the bounds',
  'Tests deliver the messages after the start.',
  ['worker/default_worker.go', 'worker/worker_executor.go'], [('early messages', 'worker/default_worker.go')],
  {'early': '2 parties, 2 (thorough 3) messages, to all and to one, EdDSA keygen and signing (thorough ECDSA too), batch 2, one preemption, race detection'})
P('P19', 'A node never runs more works than its limit, and runs each request once',
  'However requests and ends of works are interleaved, at most the allowed number of works runs at a time. Each accepted request is run exactly once and a request whose id is running already does not disturb the running work. A request waits only while the limit is reached.',
  ['schedules', 'histories'], 'every interleaving within the bounds of requests and ends of works',
  'Tests request works one after another and never fill the pool.',
  ['core/engine.go', 'core/request_queue.go'], [('start of the next work', 'core/engine.go'), ('end of a work', 'core/engine.go')],
  {'pool': '3 (thorough 4) works, concurrent requests, repeated ids, ends in any order, one preemption, race detection'})
P('P20', 'Concurrent use of the engine neither deadlocks nor corrupts its state',
  'Any calls of the engine (new nodes, requests, incoming messages, message requests, outgoing messages, ends of works) can be made at the same time. Every call returns, no shared data are accessed unsynchronised, and the engine is usable afterwards.',
  ['schedules', 'inputs'], 'every choice of concurrent calls within the bounds and every interleaving with a bounded number of preemptions',
  'A lock left behind or a race shows up only with particular calls at a particular moment.',
  ['core/engine.go'], [('locks of the engine', 'core/engine.go')],
  {'api': 'any 2 (thorough 3) of 11 kinds of calls at the same time, one preemption, race detection'})
P('P21', 'Messages of a work reach that work exactly once, also if they come early',
  'A message for a running work is given to that work, and a message for a work that is waiting or not known yet is given to it when it starts. Each message is given to its own work exactly once, in order per sender, and never to another work.',
  ['schedules', 'inputs', 'histories'], 'every position of messages relative to requests and starts within the bounds',
  'Tests start the works first; a lost message needs delivery at the moment of the start.',
  ['core/engine.go', 'core/cache/message_cache.go'], [('routing of messages', 'core/engine.go'), ('handing over early messages', 'core/engine.go')],
  {'work': '3 works, 2 (thorough 3) messages of four kinds, before, after or concurrent with requests, the first work once more after its end, one preemption, race detection'})
P('P22', 'A malformed or inconsistent message from the network never harms the node',
  'Whatever a message from a committee member contains (missing or mismatching body, unknown type, wrong number of entries, wrong or unknown sender, unknown work, in any phase of a work), the node neither crashes nor ends a work twice or keeps its slot occupied. Well formed messages are still handled afterwards.',
  ['inputs', 'histories'], 'every message within the bounds: any type and any combination of present and missing parts, in every phase of a work',
  'Tests deliver only messages that honest nodes build; the combinations of missing parts and phases are too many to list.',
  ['core/engine.go', 'types/common/tss_message.go', 'worker/default_worker.go', 'worker/prework_selection.go', 'worker/worker_executor.go', 'core/cache/message_cache.go'],
  [('validation of a message', 'types/common/tss_message.go'), ('dispatch of a message', 'core/engine.go')],
  {'malformed': 'a node of 2; an EdDSA or ECDSA signing (batch 2 or 1) or ECDSA keygen, as leader or member, before, during and after the selection, 1 (thorough 2) messages with any type, any subset of bodies present, empty, short or with missing entries, any claimed sender',
   'outsider': 'as malformed, from a third node that is known but not in the committee; EdDSA signing (thorough: all, 2 messages)'})
P('P23', 'A lost protocol message is recovered from peers, by those it is for only',
  'A node that misses a protocol message and asks for it gets it from any peer that has it, and its work then proceeds as if the message had arrived. A message to one party is handed out only to that party, and a broadcast to anybody.',
  ['inputs', 'histories'], 'every combination of lost messages, askers, kinds of messages and peers within the bounds',
  'Tests check the cache and the job alone; the key under which a message is stored by one node and asked for by another must agree.',
  ['core/engine.go', 'worker/components/message_monitor.go', 'core/cache/message_cache.go', 'types/common/tss_message.go'],
  [('answering requests', 'core/engine.go'), ('key of a message', 'types/common/tss_message.go')],
  {'recover': '3 nodes, any message of an ECDSA keygen or full signing (batch 1..2), broadcast or direct, that one node or two nodes did not get; broadcasts also relayed, any of the requests lost; the work running or over at the others'})
P('P24', 'A message is acted upon only if its named sender signed it for this node',
  'A message from the network changes nothing unless its signature was made over exactly its content by the key of the member that it names as its sender, and it is addressed to this node. Genuine messages are accepted, also when another node relays them.',
  ['inputs'], 'every message within the bounds, with any claimed sender, signer, signed content and destination',
  'Tests deliver genuine messages only; the forged ones differ from them in any one field.',
  ['core/engine.go', 'core/signer/signer.go', 'types/common/signed_message.pb.go'],
  [('authentication of a message', 'core/engine.go'), ('signature of a message', 'core/signer/signer.go')],
  {'sender': 'every kind of message, signed by any of 3 nodes or not, over its own or another content, claiming any sender, for any node',
   'roundtrip': 'every kind of message built by one node and delivered to another'})
P('P30', 'Messages on a stream are read one by one, complete and unchanged',
  'What is written to a stream as a sequence of messages is read as the same sequence, however the network cuts or delays it. A cut-off message is an error and never handed out, and an announced length beyond the limit is refused. Messages reach the listener of their protocol exactly once; those that come before it is registered do no harm.',
  ['inputs', 'histories'], 'every content, length, segmentation and cut of a sequence of messages within the bounds',
  'No test runs two messages in one segment or cuts a message.',
  ['p2p/helper.go', 'p2p/connection_manager.go'], [('framing', 'p2p/helper.go'), ('read loop', 'p2p/connection_manager.go')],
  {'framing': '2 (thorough 3) messages of 0..2 (3) symbolic bytes, 3 (4) short reads of any length, any cut',
   'header': 'every 4 byte header that announces more than the limit or at most 3 bytes',
   'handle': '3 (thorough 4) messages, listener registered before any of them or never, one preemption, race detection'})
P('P31', 'Messages to peers arrive whole and once, and a failure costs one message only',
  'Messages can be sent from any goroutine at the same time. Each one that is accepted arrives whole, once, at its peer and protocol. When a stream breaks or cannot be opened the sender of that message gets an error, and later messages to the peer arrive again.',
  ['schedules', 'faults'], 'every interleaving of concurrent sends and every position of a failure within the bounds',
  'Tests replace the connection manager; streams break at one particular write only.',
  ['p2p/connection.go', 'p2p/connection_manager.go'], [('stream of a connection', 'p2p/connection.go')],
  {'concurrent': '2 (thorough 3) concurrent sends to any of 2 peers, 2 protocols or an unknown peer, 1 (2) preemptions, race detection',
   'broken': '3 (thorough 4) sends, any two writes, with nothing or a part that arrives, and any one opening of a stream fail'})
P('P25', 'Sisu gets for each message exactly the signature that was made for it',
  'The success of a signing request is reported once, with the request itself and one signature per message in the order of the messages. An ECDSA signature is R and S, padded to 32 bytes each, followed by the recovery id; an EdDSA signature is the signature of the protocol as it is. A signature that does not cover the message is never reported as a success.',
  ['inputs', 'schedules'], 'all contents of the signatures, with leading zero bytes stripped or not, and all batches within the bounds',
  'The tests check one signature at a time; R or S with leading zero bytes occurs once in 128 signatures.',
  ['core/heart.go', 'core/engine.go', 'worker/worker_executor.go'], [('result of a signing', 'core/engine.go'), ('report to Sisu', 'core/heart.go')],
  {'signatures': 'two nodes, ECDSA or EdDSA, either leader, batch 1..2 (thorough 3), any bytes of R (1, 31 or 32 bytes), S (31 or 32) and recovery id',
   'covers': 'batches of 1..2 messages of 1..2 (thorough 4) symbolic bytes, or one of 32 or 34 bytes, ECDSA or EdDSA; an instance signs the number it is given'})
P('P26', 'A generated key is reported only after it is stored, and is the one stored',
  'The success of a key generation is reported to Sisu only when the share of the key has been stored under its type, work and committee, and the reported public key is the encoding of the stored one. If the protocol or the store fails, a failure is reported, once, and nothing is reported as a key.',
  ['inputs', 'faults', 'schedules'], 'every combination of failures, types of key and shapes of coordinates within the bounds',
  'Tests have no failing store and do not look at the order of storing and reporting.',
  ['core/heart.go', 'core/engine.go'], [('result of a key generation', 'core/engine.go')],
  {'key': 'two nodes, ECDSA or EdDSA, either leader, either order of the committee, coordinates short or long, odd or even, protocol and store failing or not, the store as slow as can be or not, thorough: one preemption; race detection'})
P('P27', 'Every request of Sisu that is accepted gets exactly one, its own, result',
  'A key generation or signing that is accepted ends with exactly one result to Sisu: of its own request and with the outcome of its work, also if the node is not selected, the work fails or Sisu was unreachable before. Requests that can never be done are refused at once and get none.',
  ['histories', 'schedules', 'faults'], 'every sequence or concurrent set of requests within the bounds, every end of their works',
  'Tests make one request of each kind, and its work succeeds.',
  ['core/heart.go', 'core/engine.go', 'worker/types/work_request.go'], [('requests and their results', 'core/heart.go'), ('validation', 'worker/types/work_request.go')],
  {'oneafter': '2 (thorough 3) requests, key generation or signing, ECDSA, EdDSA or unknown, empty, of one or two messages, or repeated, works end in success, failure or not selected; keys present or not; Sisu reachable or not',
   'concurrent': '2 (thorough 3) requests at the same time, of one or two messages, repeated or not, one preemption, race detection'})
P('P28', 'A node starts exactly once and takes requests only when it and Sisu are ready',
  'In any order of calls of Sisu, also of calls at the same time, the node starts exactly once, with the first valid key, and refuses another one. A key that cannot be read or a start that fails is reported and can be repeated. Requests are refused until the node runs and Sisu is ready, and are worked on afterwards; the node listens to the network only once Sisu has been ready.',
  ['histories', 'schedules', 'faults'], 'every sequence and overlap within the bounds of calls of Sisu and failures of a start',
  'Tests set a key once and never fail a start.',
  ['core/heart.go'], [('start of the node', 'core/heart.go')],
  {'start': '<=4 (thorough 5) calls: ready or not, a key, another key, a shorter or longer one, unreadable keys, keys of both and of unknown types, a start that fails because of the network or the database, requests',
   'secp': '<=3 (thorough 4) such calls with keys of the other type', 'twice': 'a key and at the same time a key, Sisu that gets ready or a request; a start that fails or not, 1 (thorough 2) preemptions, race detection'})
P('P29', 'All nodes derive the same work from the same request of Sisu',
  'From the same request every node derives the same work: name, type, sorted committee with indices, threshold and messages in order, whatever the order of the keys. Signings of different messages are different works. A request with keys that are missing or unknown or without messages is refused and does no harm.',
  ['inputs'], 'every order of the committee, list of messages and invalid committee within the bounds',
  'Tests build the work by hand and share it between all nodes.',
  ['core/heart.go', 'core/node.go', 'utils/misc.go', 'worker/types/work_request.go'], [('work of a request', 'core/heart.go')],
  {'same': '2 nodes, committees of 2..4 in any order, any 2 byte messages (batch 1..2), ECDSA or EdDSA, key generation or signing',
   'distinct': 'two lists of 1..3 messages with ids that are prefixes of each other',
   'committee': '0..3 keys, each one valid, missing or of an unknown type, missing or incomplete request'})
P('P34', 'Calls of the API reach the node unchanged or are refused',
  'A key generation or signing that Sisu asks for over the API reaches the node with its committee complete, in order and with unchanged keys. A committee with a key of an unknown type is refused and nothing is started. Every call reaches the node once with the arguments it was made with, and the answer of the node, error or not, is the answer of the call.',
  ['inputs'], 'every committee within the bounds', 'No test calls the API.',
  ['server/tss_api.go', 'utils/crypto.go'], [('keys of the committee', 'server/tss_api.go')],
  {'keys': '0..2 keys of 2 symbolic bytes, of any known or unknown type',
   'calls': 'every call of the API once, arguments of <=3 symbolic bytes, a node that accepts or refuses'})
P('P32', 'What the node stores survives and is loaded as it was stored',
  'Keys, preparams, presigns and peers that were stored are loaded again with the same content, in the order asked for, and nothing else is. A key or presign is never replaced by a later one of the same name, a presign that was used is not offered again, and a failure of the database is reported.',
  ['histories', 'inputs', 'faults'], 'every sequence of stores and loads within the bounds, with a database that breaks at any point',
  'Tests use a fake database or store one thing; the queries are strings that no compiler checks.',
  ['db/database.go', 'db/migrations'], [('queries', 'db/database.go'), ('tables', 'db/migrations')],
  {'presigns': '2 (thorough 3) saves of 0..2 presigns, uses or breaks, 2 groups of owners, loads of 1..2 (3) ids in any order; a connection that breaks before any row of a result',
   'keys': '2 (thorough 3) keys of two works and both types, preparams or breaks, secrets up to 2^40',
   'peers': '<=3 peers with addresses of <=2 symbolic bytes and both types of key, or a broken database'},
  'SQL is interpreted by a model of the statements used, over the tables that the migrations create; every violation is replayed on SQLite.')
P('P33', 'Secrets are readable with their key only, and keys keep their content',
  'An encrypted text is read back unchanged with its key, and a text that was changed, cut off, extended, never encrypted or is read with another key is refused, from memory or from the store. Encryption uses fresh randomness or fails; a failure of the store is reported. A public key keeps its type and bytes; padding a number adds zero bytes in front only.',
  ['inputs', 'faults'], 'every text, key, change and failure of the random source within the bounds',
  'Tests encrypt one text and decrypt it.',
  ['utils/crypto.go', 'utils/misc.go', 'store/store.go'], [('encryption of the keys', 'utils/crypto.go'), ('encrypted store', 'store/store.go')],
  {'secret': 'texts of <=2 (thorough 4) symbolic bytes, keys of 16, 24, 32 or wrong lengths, any one changed byte, cut, extra byte or other key, random sources that fail or deliver a few bytes at a time',
   'rubbish': 'any text of <=30 (thorough 64) bytes', 'keys': 'keys of <=3 symbolic bytes of all types', 'pad': 'numbers of <=4 symbolic bytes, sizes 0..5',
   'store': 'texts of <=2 symbolic bytes, stored values of <=30 (thorough 48) bytes that were never encrypted, one other key, a failing disk, random sources that fail'},
  'AES-GCM itself is an ideal cipher in the model and the real one in replays.')
P('P35', 'All nodes agree on the committee of a work with the timeouts they ship with',
  'When a committee is selected over the network, with the default timeouts, the leader goes on exactly if enough nodes are up, and then every selected node runs the work with the same committee and presigns, every other one learns that it is not selected, and no member runs what the leader gave up.',
  ['configurations', 'faults', 'schedules'], 'every leader, set of nodes that are down, late node and slow node within the bounds',
  'Tests play one side of the selection; a member that gives up before its leader needs a node that is down.',
  ['worker/prework_selection.go', 'core/config/timeout.go'], [('selection of leader and members', 'worker/prework_selection.go'), ('default timeouts', 'core/config/timeout.go')],
  {'agree': '3 nodes, any leader, all four kinds of work, any nodes down, one node up to 11 s late (thorough: all), one slow by 3 s, presigns of all, two or no nodes',
   'orders': 'as agree with 2 leaders and one offset, every order of every map'})
P('P36', 'A work of the whole network ends in one result on every node, despite a fault',
  'When all nodes get the same request, the nodes select a committee, run the protocol and report exactly one result each: the same key, or the same signatures in the order of the messages, even if one message is lost, late or repeated or one node not needed is down or late. Without the leader or enough nodes all report a failure.',
  ['faults', 'histories', 'inputs'], 'every position of one fault in the whole exchange, every leader and kind of work within the bounds',
  'Integration tests run without faults; a lost message matters in particular rounds only.',
  ['core/engine.go', 'core/heart.go', 'worker/worker_executor.go', 'worker/components/message_monitor.go', 'core/message/tss_phase_messages.go'],
  [('recovery of lost messages', 'worker/components/message_monitor.go'), ('execution of a work', 'worker/worker_executor.go'), ('messages of the protocols', 'core/message/tss_phase_messages.go')],
  {'cluster': '3 nodes with real heart, engine, workers and jobs; leaders 0..1, key generation, signing (batch 2, also from presigns), ECDSA and EdDSA; at most one fault: any protocol or selection message lost, delayed by 2 s or repeated, one node down, one node 5 s late, one node unreachable (found out after 20 s)',
   'pair': '2 works of any two kinds at once, batch 1, without a fault (thorough: one fault as in cluster)',
   'many': '3 works at once, more than a node works on at the same time, without a fault (thorough: a lost message)'})
P('P37', 'Results reach Sisu unchanged, or the node learns that they did not',
  'The node dials Sisu, with pauses, until Sisu answers. A result is then delivered once and unchanged, to the right method. A result that cannot be delivered, also because Sisu has not been reached yet, is an error and never harms the node.',
  ['faults', 'schedules', 'inputs'], 'every number of failed dials and unanswered pings, time of a result and failure within the bounds',
  'Tests replace the client; a result before the first connection needs a restart at the wrong moment.',
  ['client/client.go'], [('connection to Sisu', 'client/client.go')],
  {'connect': '<=2 (thorough 4) failed dials or pings, 2 (thorough 3) results of both kinds posted before, while or after connecting, any call fails, one preemption, race detection'})

P('P38', 'The network starts with any configuration, or says why it does not',
  'With a valid configuration the node gets its own identity, listens at its address, is announced once and connects to every peer as soon as that peer is up, whatever the other peers do; peers that stay down do not keep the node from starting. An invalid key, address or a failure of the network is an error of the start, never a crash.',
  ['configurations', 'faults', 'schedules'], 'every set of addresses, failed dials and failure of the start within the bounds',
  'Tests start two hosts in one process with correct addresses.',
  ['p2p/connection_manager.go', 'p2p/connection.go'], [('start of the network', 'p2p/connection_manager.go')],
  {'start': '<=2 (thorough 3) peers with correct, malformed or nameless addresses, each up after 0..3 (8) dials or never, keys of two or unknown types, failures of key, network or discovery, race detection'})
P('P39', 'A work that failed succeeds when it is requested again and all is well',
  'When a work fails because a node crashes, is down or misses the announcement of the committee, and all nodes get the request again after the failure, the repeated work succeeds on all nodes that take part, from new messages only: nothing that is left of the failed work gets into it or keeps it from running.',
  ['histories', 'crash points'], 'every crash point or other failure of the first work and kind of work within the bounds',
  'Tests run each work once; remains of a failed work matter only after a failure at a particular message.',
  ['core/engine.go', 'core/cache/message_cache.go', 'core/cache/work_message_cache.go', 'worker/default_worker.go'],
  [('life of a work', 'core/engine.go'), ('messages kept for a work', 'core/cache/message_cache.go'), ('messages kept for others', 'core/cache/work_message_cache.go')],
  {'repeat': '3 nodes with real heart, engine, workers and jobs; key generation, signing (batch 1, also from presigns), ECDSA and EdDSA; the first work fails by a lost message of the selection, a crash of a node at any of its protocol messages or a node that is down (thorough: also unreachable, any leader, batch 2); the second one without a fault or with one node 5 s late',
   'lost': 'as repeat; a message of the second work is lost (thorough only)',
   'slow': 'key generation (thorough: all kinds); the first work fails by a lost message of the selection; in the second one a node is 20 s late with each protocol message'},
  'A node that is slow for longer than the recovery waits gets messages of the failed work recovered in its place: known finding.')
P('P40', 'A single node signs with the key it reported, or refuses',
  'In the mode without a committee, every key generation of a known type that is asked for gets one result: a new key, or a failure if it could not be generated. A signing is refused without a key of its type or when a message cannot be signed; otherwise it gets one result with a signature of each message, in order, by the newest key. No request crashes the node.',
  ['inputs', 'schedules', 'faults'], 'every sequence of requests, some concurrent, and failure within the bounds',
  'No test calls the API of the single node; its requests overlap with the generation of keys.',
  ['server/single_node_api.go'], [('single node', 'server/single_node_api.go')],
  {'single': '2 (thorough 3) requests, after a key or not, of both and of unknown types, signings of 1..2 messages of 2 symbolic bytes, empty or missing, the first request concurrent with the second or before, no random numbers, no connection to Sisu, one preemption, race detection'})
P('P41', 'The process serves as configured, or ends before it serves',
  'With a correct configuration and secret, the process connects to the Sisu it is configured for, starts one node (or the single-node mode) with that configuration and secret, and serves its API at the configured port once it is started, also if Sisu cannot be reached yet. With a missing directory that cannot be created, or a wrong configuration, secret, node or port, it ends with an error and serves nothing.',
  ['configurations', 'faults'], 'every kind of start, configuration, secret and failure within the bounds',
  'No test starts the process.',
  ['run/run.go', 'server/server.go', 'server/api.go', 'server/tss_api.go', 'core/config/config.go'], [('start of the process', 'run/run.go'), ('server', 'server/server.go')],
  {'process': 'one start; directories that exist or not, disks, configurations, secrets and nodes that fail or not, a Sisu that is up before or after, both modes, symbolic secret of one byte and symbolic numbers and flags in the configuration, 3 ports, one preemption, race detection',
   'port': 'one start in both modes, a port that is in use'},
  'The parser of the configuration file and the HTTP server are stand-ins.')
P('P42', 'A database that is open is the configured one, complete, and stays',
  'Opening the database connects to the configured server with the configured account, creates the configured schema if it is missing and brings its tables up to date without losing what they hold; a step that fails is reported, and the disk is left as it was. A database in memory has the same tables and keeps what is stored, with pauses of any length and with several threads.',
  ['configurations', 'faults', 'histories'], 'every configuration, failing step, pause and overlap of two threads within the bounds',
  'Tests use one fresh database for a moment and the migrations of a server cannot be tested without one.',
  ['db/database.go', 'db/migrations.go', 'db/migrations'], [('connection and migration', 'db/database.go'), ('migrations', 'db/migrations.go')],
  {'server': 'new or existing schema, two hosts and ports, account of one and two symbolic characters, wrong host, port or password, any one of the first 24 steps fails',
   'memory': '2 (thorough 3) pauses of 8..32 s, stores while another thread reads or other uses; any one of the first 16 steps fails'},
  'MySQL, the migration library and the pool of connections of database/sql are models; violations in memory are replayed on SQLite with shortened limits.')
