"""Properties this family of technique does not decide here, with the reason."""
from .chain import p as q

P = []
NA = []


def p(why_not, *a):
    q(*a)
    from . import chain
    P.append(chain.P.pop())
    NA.append((a[0], why_not))


CM = "node/src/actors/chain_manager/"
p("Quantifies over crash points between asynchronous writes of an actor system: the node crate cannot be type-checked offline (actix, jsonrpc, prometheus and others are not installed; stubs for their derive macros and message dispatch would decide nothing about the order in which the runtime runs the handlers), and what a restart reads depends on what RocksDB had flushed. The synchronous steps it is made of are decided by S01-S04 (batches), D01, D12 and V13.",
  "N01", "A restarted node resumes from a state it had persisted as a whole",
  "However a node is stopped, when it starts again the chain state, the unspent outputs and the blocks it reads back belong to one and the same confirmed point of the chain, and it goes on from there to the state it would have reached without the stop.",
  ["crash_points", "histories"], "all points at which the process may end, in every stage of synchronisation",
  "No test stops a node; the node crate's tests use an in-memory state.",
  [CM + "mod.rs", CM + "handlers.rs", "node/src/storage_mngr.rs"],
  [("persist_chain_state, store_block_wips", CM + "mod.rs"), ("storage manager", "node/src/storage_mngr.rs")])
p("A liveness claim about a network: it needs assumptions about message delivery, clocks and honest stake, and quantifies over schedules of many nodes; no static argument about one program's source reaches it. The local rules agreement rests on are decided by V06, V07, D04, D11, E01 and E02.",
  "N02", "Honest nodes that hear each other agree on the chain up to the superblock",
  "As long as two thirds of the committee's weight is honest and messages arrive within an epoch, no two honest nodes ever consolidate different blocks for one height, and all consolidate the same blocks eventually.",
  ["schedules", "fault_sequences"], "all message schedules and all behaviours of the dishonest minority",
  "The tests have no network; they call the voting functions one after another.",
  [CM + "mod.rs", CM + "mining.rs", "data_structures/src/superblock.rs"],
  [("superblock consolidation", CM + "mod.rs"), ("SuperBlockState", "data_structures/src/superblock.rs")])
p("The synchronisation state machine lives in actor message handlers whose order is decided at run time by the actix scheduler and by peers; a typestate of the state machine would need the node crate type-checked (see N01), and the statement is about reaching a state, not about the transitions allowed.",
  "N03", "A node that is behind its peers synchronises and never gets stuck",
  "From any persisted state and with at least one honest peer, a node requests the missing blocks in order, drops peers that send what was not asked for or does not validate, and reaches the tip its honest peers are at.",
  ["schedules", "histories", "fault_sequences"], "all orders of messages, timeouts and misbehaviours of the other peers",
  "No test runs the synchronisation; the session tests look at single messages.",
  [CM + "handlers.rs", "node/src/actors/session/handlers.rs"],
  [("Handler<AddBlocks>", CM + "handlers.rs"), ("inbound and outbound message handling", "node/src/actors/session/handlers.rs")])
p("The wallet crate depends on actix, jsonrpc and rocksdb-backed stores that cannot be resolved offline, so there is no type-checked program to analyse; and the statement relates the wallet's database to the remote chain over whole histories of blocks and reorganisations. The key derivation, export and storage it stands on are decided by K06-K13 and S01-S04.",
  "N04", "A wallet's balance and movements are those of its addresses on the chain",
  "After any sequence of confirmed blocks, pending transactions and rollbacks, the wallet shows exactly the unspent outputs and movements of the addresses it derived, and never builds a transaction out of coins it does not have.",
  ["histories", "inputs"], "all sequences of blocks, reorganisations and local transactions",
  "The wallet's tests index a handful of blocks on one account.",
  ["wallet/src/repository/wallet/mod.rs", "wallet/src/account.rs"],
  [("index_block, create_vt, sign", "wallet/src/repository/wallet/mod.rs")])
p("It depends on the state and the faults of an Ethereum client and contract outside of the repository, and on restarts in between; the bridge crate cannot be type-checked offline (web3 and actix are not installed).",
  "N05", "The bridge reports every query once, with the result the chain decided",
  "Every query found on the contract is turned into at most one data request, and each finished request is reported with the result of its tally, also when calls fail, are repeated or the bridge is restarted.",
  ["fault_sequences", "crash_points"], "all failures of the two clients and all restarts in between",
  "The bridge has no tests of its actors.",
  ["bridges/centralized-ethereum/src/actors/dr_sender.rs", "bridges/centralized-ethereum/src/actors/dr_reporter.rs"],
  [("DrSender", "bridges/centralized-ethereum/src/actors/dr_sender.rs"), ("DrReporter", "bridges/centralized-ethereum/src/actors/dr_reporter.rs")])
p("A quantitative bound on run time and memory of scripts whose loops run over data received at run time (nested arrays, regular-expression-free text, HTML and XML trees parsed by third-party code): no bound is visible in the source; the guards that exist (timeouts of the retrieval, size limit of reveals) are run-time configuration. That no script aborts is decided by A01.",
  "N06", "Running a script ends within a bounded time and amount of memory",
  "No retrieval, aggregation or tally script, on any response, occupies a node for longer or with more memory than a fixed multiple of the sizes of the script and of the response.",
  ["inputs"], "all scripts and responses", "Tests run each operator on inputs of a few bytes.",
  ["rad/src/lib.rs", "rad/src/operators/mod.rs", "rad/src/script.rs"],
  [("execute_radon_script", "rad/src/script.rs"), ("run_retrieval", "rad/src/lib.rs")])
p("Unpredictability and fairness are statements about probabilities under cryptographic assumptions, not about the shape of the code; the comparisons and targets that use the random values are decided by E01, E02, V06 and V08.",
  "N07", "Nobody can predict or bias who is elected",
  "Before a beacon is known, no one can tell which identities will be eligible for the next epoch, and no choice of an identity's own transactions makes it more likely than its power entitles it to.",
  ["inputs", "histories"], "all strategies of a party that holds less than the honest share",
  "It is a statement about distributions; tests check sample targets.",
  ["validations/src/eligibility/current.rs", "validations/src/eligibility/legacy.rs"],
  [("mining_eligibility, witnessing_eligibility", "validations/src/eligibility/current.rs")])
p("Peer books are updated by actors on a timer with randomly chosen slots (rand::thread_rng) and probed over the network: which peers survive depends on the random choices and on the remote ends; only the bucket arithmetic is local, and it gives no guarantee by itself.",
  "N08", "No set of attackers can crowd all honest peers out of a node's address book",
  "As long as honest peers answer, an attacker who controls the addresses of a bounded number of network ranges can neither evict all of them from the tried addresses nor take all outbound connections.",
  ["histories", "schedules"], "all sequences of announced addresses and connection attempts",
  "The p2p tests add a handful of addresses to an empty book.",
  ["p2p/src/peers/mod.rs", "p2p/src/sessions/mod.rs", "node/src/actors/peers_manager/mod.rs"],
  [("Peers::add_to_new, add_to_tried", "p2p/src/peers/mod.rs")])
