"""Texts of the properties over the chain's data structures."""
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or []))


SK, SS = "data_structures/src/staking/stake.rs", "data_structures/src/staking/stakes.rs"
p("D03", "Stakes change exactly as staked, unstaked, rewarded or slashed",
  "Adding stake increases exactly the named entry by exactly the amount and moves each of its ages to the average weighted by the coins; removing stake decreases it by exactly the amount, never below zero and never to a remainder below the minimum, and leaves the ages alone. The nonce becomes the epoch for stakes and unstakes and is otherwise kept. A rejected change alters nothing and is reported. An entry is reachable by its key, its validator and its withdrawer from its first coin to its last, and by none of them afterwards. Stake and unstake transactions apply exactly their own key and amounts, in order.",
  ["inputs", "histories"], "all histories of stakes, unstakes, rewards and slashes over any set of keys, amounts and epochs",
  "Tests replay a handful of short histories with one or two validators.",
  [SK, SS], [("Stake::add_stake, Stake::remove_stake", SK), ("Stakes::add_stake, Stakes::remove_stake, process_stake_transaction", SS)])
p("D07", "Stakers rank by power, in one total order, and queries tell the truth",
  "The rank of stakers is the list of all entries by decreasing power in the capability at the epoch, ties broken by validator and then withdrawer, so that every node computes the same rank. A validator's power is the greatest of its entries; nonces, entries and totals are answered from the entry, list or whole tracker asked for, completely, and exactly unknown keys are refused. A validator known to the tracker accepts only its own withdrawer. Mining resets the ages of the winner and of everyone ranked above it, the better the rank the longer; other resets move each age of the validator by its share. A census takes the requested part of the rank and never aborts.",
  ["inputs", "histories"], "all contents of the tracker, capabilities, epochs and queries",
  "Tests rank a handful of entries with hardly any ties.",
  [SS], [("Stakes::by_rank, Stakes::query_power, Stakes::query_stakes, Stakes::census", SS), ("Stakes::reset_mining_age, Stakes::reset_age", SS)])
EC, EL_ = "validations/src/eligibility/current.rs", "validations/src/eligibility/legacy.rs"
p("E01", "Only sufficiently powerful stakers may mine or witness",
  "A validator may mine at an epoch exactly when one of its entries is among the first of the mining rank, as many as the replication factor but never more than two thirds of the entries. A validator may witness only if it stakes, has power, and has more power than the entry at position witnesses times two to the round of the witnessing rank; its target is then max_rounds times the bits of its power over round times the bits of the threshold power plus the remaining rounds times the bits of the greatest power. Unknown validators are not eligible rather than an error.",
  ["inputs", "histories"], "all contents of the tracker, epochs, factors, witnesses and rounds",
  "Tests use trackers of two or three entries.",
  [EC], [("Eligibility for Stakes", EC)])
p("E02", "Legacy targets are the stated share, era by era",
  "Before stake took over, a block proof is eligible below the share replication_factor over the number of identities (at least one; from the first improvements on, at least the minimum difficulty), except in the first epochs, when it is one over the minimum difficulty; a witnessing proof below own reputation plus one, over the active reputation (in the last era at least the minimum difficulty), times the witnesses or the threshold factor of the era, in the third hard fork capped before that factor. Every product saturates instead of wrapping. The slots of a miner are one such target per replication factor of the range, in order.",
  ["inputs"], "all identities, factors, epochs, reputations, witnesses and eras",
  "Tests sample a few of the values of each era.",
  [EL_], [("calculate_randpoe_threshold, calculate_reppoe_threshold, VrfSlots::from_rf", EL_)])
CH = "data_structures/src/chain/mod.rs"
p("D08", "Derived reputation is never stale, and identities have one order",
  "Whatever the reputation engine derives (total active reputation, eligibility, threshold factors, the order of active identities) always reflects the current reputation, active set and alpha clock: any change to them, or any mutable access handed out, discards all of it, and it is rebuilt as a whole before the next answer. Identities are ordered by more reputation first, ties by the hash of key and alpha, or by key when there is no reputation. New reputation is issued per witnessing act since the last update, up to the last issuing act and never beyond.",
  ["inputs", "histories"], "all histories of changes and queries, all identities and reputations",
  "Tests query a freshly built engine.",
  [CH], [("ReputationEngine, ReputationThresholdCache", CH), ("compare_reputed_pkh, reputation_issuance", CH)])
DQ = "data_structures/src/data_request.rs"
p("D05", "A tally pays each witness its due and returns the rest to the requester",
  "The reward of a witness is the collateral plus the stated reward, plus, before WIP-0023, an equal integer share of the collateral of the liars and those who did not reveal; only the collateral when nobody is in consensus; nothing without commitments. Before stake took over, every revealer in consensus gets the reward, an out-of-consensus error gets its collateral back, a liar nothing, and when nobody is in consensus every committer gets its collateral back; from stake on witnesses get no outputs. Revealers in consensus leave the out-of-consensus list, errors are listed as errors. The requester gets back the rewards not earned plus the fees of commits and reveals not made, in one last output, exactly when there is any.",
  ["inputs"], "all requests, committers, revealers, marks of lies and errors, eras",
  "Tests cover a few combinations of one or two witnesses.",
  [DQ], [("create_tally, calculate_errors_and_liars_count", DQ), ("calculate_witness_reward, calculate_witness_reward_before_second_hard_fork, calculate_tally_change", DQ)])
p("D10", "A request moves through its stages by the rules, and is filed under its hash",
  "A request starts in commit stage; an update moves it to reveal when it has commitments, else counts a further commit round while rounds are left (and it does not ask for too many witnesses), else to tally; from reveal to tally when all witnesses revealed or no rounds are left, else counts a round. Commits, reveals and tallies are accepted only in their own stage, recorded for the named request under their signer, and refused otherwise without change. Every request in the pool is advanced by every update; one that leaves commit stage leaves the list of open requests; own reveals are handed out exactly while their commitment is recorded and the reveal is not; the requests whose tally is due are exactly those in tally stage (without those that ask too many witnesses), their reveals in one defined order.",
  ["inputs", "histories"], "all histories of requests, commits, reveals, tallies and updates, any rounds and witnesses",
  "Tests drive a single request through a handful of rounds.",
  [DQ, CH], [("DataRequestPool", DQ), ("DataRequestState::update_stage, add_commit, add_reveal, add_tally", CH), ("data_request_has_too_many_witnesses", DQ), ("calculate_backup_witnesses", CH)])
UP, UD = "data_structures/src/utxo_pool.rs", "data_structures/src/utxo_pool/utxo_db.rs"
p("D01", "The set of unspent outputs is exactly what was created and not yet spent",
  "An output is found, with its content and block number, exactly when it was created (pending, stored, or in the diff asked) and not spent; what a diff spends is gone for that diff alone until it is applied. Applying a diff adds each created output and removes each spent one; persisting writes each pending output (except those also spent) and deletes each spent one, once, under its own pointer, and forgetting what was persisted forgets exactly that. Visits offer every unspent output, pending or stored. The index by owner lists each stored output under its owner and drops it when deleted.",
  ["inputs", "histories"], "all histories of creating, spending, applying, persisting, confirming and querying",
  "Tests run a handful of short histories over a few outputs.",
  [UP, UD], [("UnspentOutputsPool, Diff, UtxoDiff", UP), ("UtxoDbWrapStorage, CacheUtxosByPkh, UtxoWriteBatch", UD)])

p("D04", "Superblock votes are counted once per committee member and decide by two thirds",
  "A vote counts only if it is for the current superblock index and from a member of the committee, once per identity however often and however signed it is sent; an identity that votes for two superblocks with the same index loses its vote and all later ones. The verdict follows from these counts: without a committee the local superblock stands; a superblock with at least two thirds of the committee (rounded down) is the consensus; otherwise the outcome is open exactly while the missing votes could still make two thirds. No sequence of votes aborts the node.",
  ["inputs", "histories"], "all sequences of votes, of any identities, indices, hashes and signatures, and all committees",
  "Tests play a few sequences of up to five well-behaved voters; repeated, contradicting and differently signed votes of one member are hardly combined.",
  ["data_structures/src/superblock.rs"], [("SuperBlockState, SuperBlockVotesMempool", "data_structures/src/superblock.rs")])

p("D11", "A superblock states the committee, blocks and keys it is made of",
  "The committee of a superblock is drawn from the previous reputation set by the former beacon and the index, of the size given (or stated by the superblock while synchronizing), except in an emergency period and since wit/2, where it is the fixed one. The superblock states the size of that same committee, the root of the keys of the new set, and for all its blocks in order the roots of their requests and tallies and the hash of the last; and the beacon that votes refer to is its own. Votes received before are weighed again with the new committee and beacon. No size or set aborts the node.",
  ["inputs", "histories"], "all reputation sets, committee sizes, block headers and received superblocks, in every environment and period",
  "Tests build a few superblocks from up to three headers with fixed keys; sizes around the number of identities, emergency periods and synchronization are hardly combined.",
  ["data_structures/src/superblock.rs"], [("build_superblock, mining_build_superblock, calculate_superblock_signing_committee", "data_structures/src/superblock.rs")])

p("D02", "A hash covers all of the content, and merkle roots cover every transaction",
  "The hash of a transaction is that of its body: of the serialized body, for a data request of the hash of its output followed by that of the whole body, for a tally of the digest of its request and result followed by that of the whole. A block's hash is that of its header, a superblock's that of all its fields in order. Serialization leaves out nothing but remembered hashes, which are never anything but the digest of the content. Keys, claims, signatures and vote messages are digested as stated; the network magic is the first two bytes of the digest of all constants; an address is the first twenty bytes of the digest of the public key. A block's merkle roots are each the root over the hashes of all its transactions of that kind at the version, in order (stakes from wit/1.8, unstakes from wit/2, else zero).",
  ["inputs"], "all contents of all structures, in every protocol version",
  "Tests compare a handful of fixed examples, whose unused fields are empty.",
  ["data_structures/src/transaction.rs", CH, "data_structures/src/proto/versioning.rs"], [("Hashable, MemoizedHashable, VersionedHashable", "data_structures/src/transaction.rs"), ("BlockMerkleRoots::from_transactions, merkle_tree_root", CH), ("VersionedHashable", "data_structures/src/proto/versioning.rs")])

p("D12", "What is sent arrives as it was sent, and malformed bytes are refused",
  "Encoding a message, block, transaction or any part of one and decoding it gives back the same, field by field and kind by kind, and likewise through the legacy form used with older peers; fields the legacy form lacks come back empty. Before wit/1.8 headers and messages are encoded in the legacy form, later in the current one; from wit/2 the merkle roots drop the mint hash. Keys, digests, addresses and numbers of the wrong size, and messages of no known kind, are refused with an error: no bytes a peer can send abort the node.",
  ["inputs"], "all messages and all received bytes, in every protocol version",
  "Tests decode a handful of well-formed examples.",
  ["data_structures/src/proto/mod.rs", "data_structures/src/proto/versioning.rs"], [("ProtobufConvert and its implementations", "data_structures/src/proto/mod.rs"), ("Versioned, legacy conversions", "data_structures/src/proto/versioning.rs")])
