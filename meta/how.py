# How each property is decided: what is encoded, what stands in, against what oracle.
HOW = {
'P01': 'GetThreshold is encoded bit-precisely; the oracle is ceil(2n/3)-1 in integers. One query over all n.',
'P02': 'The real queue runs an arbitrary history of AddWork/Pop with symbolic ids; the oracle is a list of the accepted requests in submission order, searched by priority.',
'P03': 'The real CircularQueue and WorkMessageCache run arbitrary additions with symbolic keys (so every pattern of repetition is covered at once); the oracle counts distinct newer items per sender.',
'P04': 'The real MessageCache runs arbitrary interleavings of AddMessage, GetAllMessages, PopAllMessages; the oracle is a list per sender.',
'P05': 'ChooseLeader runs on both of two nodes that list the committee in different orders; SHA-256 is an arbitrary injective function, so the solver chooses the digests.',
'P06': 'GetMessageKey/ExtractMessageKey run on symbolic texts; oracle: equality of the four parts, and a round trip through fmt and strings.',
'P07': 'The real blame manager runs an arbitrary history of reports; oracle: sets per work and round.',
'P08': 'All constructors of control messages with symbolic arguments; NewTssMessage with batches in which any message may fail to serialise.',
'P09': 'The round tables against the message types of the protocols (names taken from tss-lib, compiled in), for every message and work type.',
'P10': 'The real leader (PreworkSelection) with its presign store; answers arrive early, late, repeatedly or not, from members and strangers; the oracle recomputes who answered yes, how many are needed and who owns presigns.',
'P11': 'The real member with an announced committee of arbitrary names, sizes, repetitions, presigns and sender; oracle: acceptable iff from the leader, known distinct members, large enough, presigns loadable for the whole batch.',
'P12': 'The real selection, run concurrently with the delivery of arbitrary selection messages under the scheduler of the engine; deadlock, waiting deliverers and double outcomes are assertions.',
'P13': 'The real presign manager over an arbitrary store with symbolic ids, requests sequential or concurrent, database writes that may fail.',
'P14': 'The real message monitor with an arbitrary history of received messages, then silence (virtual clock); oracle: the complement of the received ones in the rounds started.',
'P15': 'The real Job with a protocol instance that sends and ends under control of the solver (stand-in at tss.Party), timeouts as scheduling choices.',
'P16': 'The real executor and jobs of a batch; instances progress in any interleaving up to any point; oracle: one network message per round and destination with one payload per instance in order.',
'P17': 'The real executor and jobs; instances end, stall, fail or refuse; inputs may be missing; oracle: one outcome, results in batch order.',
'P18': 'The real worker with selection, executor and jobs; messages at any time around the end of the selection, with preemptions and happens-before race detection.',
'P19': 'The real engine with worker stand-ins that end when the solver says; requests, repeats and ends sequential and concurrent.',
'P20': 'All public calls of the engine in pairs or triples at once, with preemptions at every lock operation; deadlock and race detection, effects checked afterwards.',
'P21': 'The real engine; messages before, while and after requests; a work that runs again; oracle: every message once at its own work.',
'P22': 'The real engine, worker, selection, executor; a symbolic message of any type with any subset of bodies is delivered in every phase; implicit checks (nil, index, close) are the oracle, then a well formed work must go on.',
'P23': 'Three real engines and executors; a message is lost, the ask and answer travel through the real code; oracle: exactly who may have the message answers.',
'P24': 'The real engine with an ideal signature (a tag of key and content); forged and genuine envelopes in every combination of claimed sender, signer, relayer, destination, content.',
'P25': 'Heart, engine, worker, executor and jobs are real; signing instances return signatures (symbolic bytes) in any order; oracle: the result carries each message\'s own signature, and the signature was made over the bytes of the request.',
'P26': 'As P25 for key generation with a database that may fail or be slow, at each point.',
'P27': 'Heart and engine are real; any sequence or concurrent pair of requests, any end of works, any failure of the client; oracle: one result with the request\'s own identity per accepted request.',
'P28': 'The real Heart start-up with Sisu\'s calls in any order and with failures at each step.',
'P29': 'Heart.Keysign/Keygen on two nodes with the committee in any order; Keccak-256 is evaluated (or an injective function when symbolic).',
'P30': 'Reader and writer of p2p/helper.go and the stream handler run on a stream that cuts, delays and ends anywhere; lengths of the header are symbolic 32-bit numbers.',
'P31': 'Connection and connection manager are real, the libp2p host is a stand-in whose streams break at any write; concurrent senders with preemptions.',
'P32': 'db/database.go is real; SQL statements are interpreted by a model over the schema that the migration files of the repository create; replays run on SQLite.',
'P33': 'utils/crypto.go is real over an ideal AES-GCM; texts, keys and damages are symbolic; key packing and padding bit-precisely.',
'P34': 'server/tss_api.go is real; Heart\'s entry points are stand-ins that record; key types and bytes are symbolic.',
'P35': 'Several real selections connected by a network with the default timeouts on a virtual clock; nodes down, late or slow; oracle: agreement and sizes.',
'P36': 'Three complete real nodes (heart, engine, workers, executors, jobs) on a virtual clock with one fault; protocol instances are stand-ins that need the messages of the real protocols round by round.',
'P37': 'client/client.go is real; the RPC connection is a stand-in that refuses, fails or answers; oracle: deliveries and errors.',
'P38': 'The start of the connection manager is real; libp2p and multiaddr parsing are stand-ins that fail or succeed; oracle: error or all peers dialled.',
'P39': 'As P36; the first work is made to fail at any point (a node crashes at one of its messages and restarts with empty caches), then all nodes get the same request again; every protocol message carries the number of its run in its payload, so the oracle sees stale ones.',
'P40': 'server/single_node_api.go is real; key generation and signing of the libraries are stand-ins whose signatures carry key and message; oracle: one result per accepted request, signatures by the newest reported key.',
'P41': 'run/run.go, server/server.go and both APIs are real; file system, parser of the file, node, Sisu and the network are stand-ins that record or fail; oracle: what is started, with what, and what is served.',
'P42': 'db.Init (Connect, both kinds of migration, MigrationsTempDir with its embedded files) and the statements are real; sql.Open, the pool, the server, migrate and the disk are models in which any step can fail; oracle: a database reported as open can be used, is the configured one, and still holds what was stored.',
}
