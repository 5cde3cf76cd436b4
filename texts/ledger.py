"""Texts of the properties over validation and the ledger's data structures."""
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or []))


V = "validations/src/validations.rs"
T = "data_structures/src/transaction_factory.rs"
p("V01", "No transaction creates more value than it spends",
  "The fee computed for a value transfer, data request or stake transaction is the sum of the outputs it spends minus everything it creates: its outputs, the full cost of a data request (witnesses times reward plus commit and reveal fees), the stake and the change. For an unstake it is the declared fee, and withdrawal plus fee never exceed the stake. A transaction whose total would be negative or overflow is rejected, and for no other reason.",
  ["inputs"], "all transactions, all sets of unspent outputs and all amounts, including sums that overflow",
  "Tests use small amounts that never approach the integer limits, and one or two inputs and outputs.",
  [V, T, "data_structures/src/chain/mod.rs"], [("vt/dr/st/ut_transaction_fee", V), ("checked_total_value", "data_structures/src/chain/mod.rs")])
p("V02", "Every spent output exists, is unlocked and is counted exactly once",
  "The inputs of a transaction, and the collateral of a commitment, are accepted only if each refers to an unspent output whose time lock has expired and none is listed twice; their value is the exact sum of those outputs, with overflow rejected. Collateral must also belong to the committer and be old enough, and inputs minus change must equal the required collateral (zero once staking is active, where the committer's stake must cover the minimum stake plus the collateral).",
  ["inputs", "histories"], "all lists of inputs, any length and repetition, against all sets of unspent outputs, epochs and protocol versions",
  "Which input of a list is the bad one, and whether repetition is adjacent, are sampled once or twice; amounts near the integer limit are not tried.",
  [V, T], [("transaction_inputs_sum, transaction_outputs_sum", T), ("validate_commit_collateral", V)])
p("V03", "Nothing is accepted without a valid signature by the right key",
  "A value transfer, data request or stake transaction carries one signature per input, each by the key owning the spent output and over that transaction's own hash. Commitments and reveals carry one signature; an unstake is signed by the withdrawal address; a block is signed by the key that proves its eligibility. Every queued signature and proof is verified with its own key, message and target, and a malformed key or signature is an error, never an abort.",
  ["inputs"], "all transactions, blocks, votes and queues of signatures, including truncated or malformed keys and signatures",
  "Tests corrupt one signature at a time in short lists; they do not reach malformed keys in votes, or a second item after a bad first one.",
  [V], [("verify_signatures", V), ("validate_transaction_signature and its siblings", V)])
p("V04", "A block is accepted only if every part of it is, against one running state",
  "Every transaction of a block is validated in turn against the ledger as changed by the transactions before it: what one spends the next cannot, and what one creates the next may. Each list is committed to by the matching root in the header (those added by a protocol upgrade only from that upgrade on), value transfers and data requests stay within the block weight, no validator stakes or commits twice for the same thing, the mint equals the fees collected plus the block reward, exactly the tallies due are present, and the genesis block mints what it declares. Validation itself changes nothing but its own difference of unspent outputs.",
  ["inputs", "histories"], "all blocks: any number and order of transactions of the eight kinds, all protocol versions, all ledger states",
  "Tests build blocks with one or two transactions of one kind; interactions between kinds and loops that stop early or thread the wrong state are not reached.",
  [V], [("validate_block_transactions", V), ("UtxoDiff", "data_structures/src/utxo_pool.rs")])
p("V05", "Money is minted exactly as scheduled",
  "Before wit/2 a block's mint pays out exactly the fees of its transactions plus the scheduled reward, in at most two non-zero outputs; from wit/2 on the mint is empty. The scheduled reward starts at the initial value, halves each halving period and becomes zero from the 64th halving; the total supply is the sum over all halvings of a period's length times that period's reward. A mint is rejected only for breaking one of these rules.",
  ["inputs"], "all mint transactions, fees, epochs, halving periods and protocol versions",
  "Tests try a handful of epochs and fee values; integer limits and the last halvings are not reached together.",
  [V, "data_structures/src/chain/mod.rs"], [("validate_mint_transaction, block_reward, total_block_reward", V)])
p("V06", "Only an eligible, signed block extends the chain's tip",
  "A block is accepted as the next one only if its epoch is neither in the future nor before the tip's, it points to the tip, and its proposer is eligible for that epoch and has signed it; the only exception is the genesis block, which must have the configured hash and contain nothing but the genesis value transfers. A valid block is not refused for another reason. A single transaction offered for inclusion is validated by the rules of its own kind against the current ledger.",
  ["inputs", "histories"], "all blocks, chain tips, epochs, proofs and protocol versions",
  "Each rejection is tested alone; combinations of tip, epoch and protocol version, and the binding of the proof to the key that signs, are not.",
  [V], [("validate_block, validate_genesis_block, validate_new_transaction", V)])
p("V07", "Every node picks the same block among candidates",
  "Comparing two candidate blocks is a lexicographic order that depends only on the values compared: before wit/2 first the slot of the proof, then whether the proposer has reputation, then whether it is active, then the proof (smaller is better), then the block hash; under wit/2 first power, then proof and hash. Swapping the arguments swaps the answer, and two different candidates never tie. A proof's slot is the first target that is not below it.",
  ["inputs"], "all pairs of candidates: every combination of orderings of the compared components and flags, per protocol version",
  "The order has hundreds of combinations of components; tests compare about a dozen pairs.",
  [V], [("compare_block_candidates, VrfSlots::slot", V)])
p("V08", "Commitments and reveals come only from the right witness, at the right time",
  "A commitment is accepted only while its request collects commitments, from an eligible key, with sufficient collateral, with at most one non-zero change output returning to that key, signed by that key and with an eligibility proof for this request. A reveal is accepted only while its request collects reveals, once per key, from a key that committed, and only if it opens that key's commitment. A valid one is refused for no other reason.",
  ["inputs", "histories"], "all commitments, reveals, data request states, ledgers and protocol versions",
  "Tests use one request in one state; interplay of request stage, key, commitment and protocol version is sampled.",
  [V], [("validate_commit_transaction, validate_reveal_transaction", V)])
p("V09", "Stakes and unstakes stay within the limits and belong to who signs",
  "A stake is accepted only where staking is active, for at least the minimum, on a validator that has no other withdrawer and whose key authorised this withdrawer, with inputs, and such that what the key then stakes does not exceed the maximum. An unstake is accepted only under wit/2, with the stake's current nonce, a withdrawal and fee covered by the signer's own stake on that validator, a time lock of at least the delay, and leaving nothing or at least the minimum. Neither is refused for another reason.",
  ["inputs", "histories"], "all stake and unstake transactions, amounts up to the integer limits, stake registers and protocol versions",
  "Tests try amounts around one limit at a time on small registers; sums that overflow, and protocol versions other than the current one, are not tried.",
  [V], [("validate_stake_transaction, validate_unstake_transaction", V)])
p("V10", "Only well-formed, affordable data requests enter the chain",
  "A data request is accepted only within the weight limit, with inputs, signatures and a computable fee, at most one non-zero change output returning to the owner of its first input, at least one witness and a reward for each, a consensus percentage from 51 to 99, collateral that is the default or at least the minimum and, once in force, not too large for the reward; and only if every source is of an allowed kind, has exactly the fields of that kind and a readable script, and both stages convert. A valid one is not refused.",
  ["inputs"], "all data request transactions: any number of sources and operators, all amounts, all combinations of active upgrades",
  "Tests vary one field of one default request; requests with several sources, and the limits of each number, are sampled.",
  [V, "data_structures/src/data_request.rs"], [("validate_dr_transaction, validate_data_request_output, validate_rad_request", V), ("calculate_reward_collateral_ratio", "data_structures/src/data_request.rs")])
p("V11", "Only well-formed value transfers enter the chain",
  "A value transfer is accepted only within the weight limit, with inputs, with no output of zero value, its signatures checked over its own hash and its fee computed. A genesis transfer has no inputs or signatures, at least one output, none of zero value, and creates exactly their sum. Neither is refused for another reason, and an offered genesis transfer never aborts the node.",
  ["inputs"], "all value transfers with any number of inputs, outputs and signatures",
  "Tests have one or two outputs and at most a few signatures; the position of a zero output and large counts are not tried.",
  [V], [("validate_vt_transaction, validate_genesis_vt_transaction", V)])

p("V12", "A tally pays out exactly what the request's outcome entails",
  "A tally is accepted only for a known request in its tally stage, when its result bytes, its out-of-consensus and error committers and its number of outputs are those computed from the reveals and committers the pool holds. Every output is either the change (the last one, to the creator of the request, of the expected amount) or pays, once and without time lock, a revealer who was not dishonest his reward, an error out of consensus his collateral, or when nobody was honest a committer his collateral; and the sum of the outputs satisfies the value equation of the protocol version. It is not refused for another reason.",
  ["inputs"], "all tallies, with any number of commits, reveals, liars and errors, under every protocol version and upgrade",
  "Tests cover some dozens of hand-made tallies with up to five witnesses; most combinations of liars, errors, missing reveals and protocol versions, and the position of a wrong output, are not tried.",
  [V], [("validate_tally_transaction, create_expected_tally_transaction", V)])

p("V13", "Applying a transaction spends its inputs and creates exactly its outputs",
  "Applying the inputs and outputs of a transaction to the unspent outputs removes each of its inputs, and nothing else, and creates each of its outputs, once and under the pointer of its own hash and position. The time lock of an output is as given, except that from wit/2 on one smaller than the chain's start time counts from the start of the epoch; and the age of an output is that of the block, or, where the change of a collateral keeps its age, that of the most recent input it comes from, provided that its owner owned all the inputs.",
  ["inputs"], "all transactions with any number of inputs and outputs, all owners, time locks and block numbers, under every protocol version",
  "Tests apply a few transactions with one or two inputs and outputs; which output keeps the age of which inputs is checked for a handful of owners.",
  [V, "data_structures/src/utxo_pool.rs"], [("update_utxo_diff", V)])
p("V14", "Requests nobody committed to, or nobody can serve, are accounted for in a block",
  "When a block is validated, every data request that was waiting for commitments at the block's epoch and gets none in the block keeps using the block's data request weight: its own and its extra weight count towards the limit together with the requests of the block, and those that do get commitments do not count. A request of the block counts with its weight unless it is one of those already counted because it asks for more witnesses than there are validators. A request of the block that asks for more witnesses than there are validators, and no other, is ready for its tally in that same block, and the tallies are validated knowing exactly these.",
  ["inputs", "history"], "all blocks, all sets of pending data requests and of validators, from the upgrade that introduced the rule on",
  "Tests validate blocks with one or two requests and an almost empty pool; the effect of many carried requests on the weight limit and on tallies of the same block is not enumerated.",
  [V], [("validate_block_transactions", V)])

