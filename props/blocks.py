"""Properties over validations: minting, extending the chain, choosing between candidates, eligibility."""
import re

from wf.check import prop
from wf.extra import domain, fact, fact_edges, lin, pol, poly_edges
from wf.order import Order, lexi
from wf.valid import accum, may_skip, alts, both, calls_to, checked, compared, edges, errs, first_match, form, keys, named, iterations, need, oks, per_element, per_nested, fresh, insertions, reasons, succeeded, sum_forms, ver

VA = "witnet_validations"
DS = "witnet_data_structures"
VERSION_RX = re.compile(r"^(?:\w+::)*(?:ProtocolVersion::from_epoch(?:_opt)?|(?:\w+::)?get_protocol_version)\((?:Option::Some\{0: )?(\w+(?:\.\w+)*)\}?\)$")


def of_epoch(*subjects):
    return re.compile(VERSION_RX.pattern.replace(r"(\w+(?:\.\w+)*)", "(?:" + "|".join(re.escape(s) for s in subjects) + ")"))


@prop("V05", [VA],
      "path-sensitive required conditions (linear facts) on the mint; recurrence analysis of the reward schedule",
      "validate_mint_transaction is analysed on all paths for each protocol version: before wit/2 acceptance implies the exact equality of the minted sum with fees plus reward, at most two outputs, none of them zero; from wit/2 on it implies equality with an empty mint for the epoch. Rejections happen for those reasons only. block_reward and total_block_reward are reduced to their recurrences (shift by epoch divided by the period, zero from the 64th halving; the sum over all halvings, checked for overflow). A halving period of zero is excluded by the constants")
def v05(C):
    a0 = C.fnA(VA, "validate_mint_transaction", no_inline=keys(C, "from_epoch", "from_epoch_opt", "get_protocol_version", "transaction_outputs_sum", "block_reward", "hash"))
    ep = ["mint_tx.epoch eq block_epoch", "block_epoch eq mint_tx.epoch"]
    need(C, a0, "mint-epoch", "a mint is of its block's epoch", oks(a0), *ep)
    pv = of_epoch("block_epoch", "mint_tx.epoch")
    old = a0.under(ver(("V1_7", "V1_8"), pv))
    new = a0.under(ver(("V2_0", "V2_1"), pv))
    for b, l in ((old, "before wit/2"), (new, "from wit/2 on")):
        C.ob("mint-value", f"the version of the block decides ({l})", len(b.p.nodes) < len(a0.p.nodes) and bool(oks(b)), "the protocol version of the block's epoch is not consulted", b.fn["span"])
    sums = {old.s(c.value) for c in old.calls() if c.f["name"] == "transaction_outputs_sum" and c.arg(0) == "mint_tx.outputs"}
    rew = {old.s(c.value) for c in old.calls() if c.f["name"] == "block_reward" and c.arg(0) in ("mint_tx.epoch", "block_epoch") and c.args[1:] == ["initial_block_reward", "halving_period"]}
    eqs = set()
    for s in sums:
        for r in rew:
            eqs |= fact_edges(old, fact("eq", {f"{s}.Ok.0": 1, "total_fees": -1, r: -1}))
    need(C, old, "mint-value", "before wit/2 a mint pays exactly the fees plus the reward", oks(old), eqs, what="sum of outputs equals fees plus reward")
    need(C, old, "mint-shape", "before wit/2 a mint has at most two outputs", oks(old), fact("le", {"len(mint_tx.outputs)": 1}, -2))
    zero = edges(old, *[f"elem(mint_tx.outputs).value {o}" for o in ("ne 0", "gt 0", "ge 1")])
    per_element(C, old, "mint-shape", "before wit/2 no output of a mint is zero", ["mint_tx.outputs", "enumerate(mint_tx.outputs)"], oks(old), "each output compared with zero", cut=zero)
    ne = set()
    for s in sums:
        for r in rew:
            ne |= fact_edges(old, fact("ne", {f"{s}.Ok.0": 1, "total_fees": -1, r: -1}))
    bad = [f"{s} is Err" for s in sums]
    reasons(C, old, "mint-value", "before wit/2 a mint is rejected only for its epoch, value or shape", errs(old), "mint_tx.epoch ne block_epoch", "block_epoch ne mint_tx.epoch", ne, *bad, fact("gt", {"len(mint_tx.outputs)": 1}, -2), "elem(mint_tx.outputs).value eq 0", re.compile(r"^checked_add\(.*\) is None$"))
    good = set()
    for e, x in compared(new, "eq", lambda s: s == "mint_tx"):
        fs = {n: new.s(new.v.projv(x, (named(C, "MintTransaction", n),))) for n in ("epoch", "outputs")}
        base = new.s(x)
        if fs["epoch"] in ("block_epoch", "mint_tx.epoch") and (re.match(r"^(?:MintTransaction::)?(?:Default::)?default\(\)\.outputs$", fs["outputs"]) or fs["outputs"] in ("Vec::new()", "Default::default()")):
            good.add(e)
        else:
            C.ob("mint-value", "from wit/2 on the mint is compared with an empty one of the epoch", False, f"{base} {fs}"[:300], new.where(e[0]))
    empty = edges(new, "is_empty(mint_tx.outputs)", "len(mint_tx.outputs) eq 0")
    need(C, new, "mint-value", "from wit/2 on a mint creates nothing", oks(new), good or empty, what="the mint equals the empty mint of the epoch")
    # the schedule
    r = C.fnA(VA, "block_reward")
    H = "Div(epoch, halving_period)"
    ok = {"Shr(initial_block_reward, %s)" % H, "initial_block_reward >> %s" % H}
    some = f"checked_shr(initial_block_reward, {H})"
    for x in r.rets():
        for v in alts(r, x.value):
            s = r.s(v)
            if s in ok:
                need(C, r, "schedule", "the reward is halved by a shift within the width", [x] if len(alts(r, x.value)) == 1 else [], fact("lt", {H: 1}, -64), what="fewer than 64 halvings") if len(alts(r, x.value)) == 1 else None
            elif s == "0":
                if len(alts(r, x.value)) == 1:
                    need(C, r, "schedule", "the reward ends only after 64 halvings", [x], fact("ge", {H: 1}, -64), f"{some} is None", f"{H} lt 0", what="64 halvings or more")
            else:
                C.ob("schedule", "the reward is the initial one halved once per period", s in (some + ".Some.0", f"unwrap_or({some}, 0)", f"unwrap_or_default({some})"), s[:200], r.where(x.pid))
    C.ob("schedule", "the reward depends on the number of halvings", any(s in ok or some in s for x in r.rets() for v in alts(r, x.value) for s in [r.s(v)]), str([x.s[:80] for x in r.rets()]), r.fn["span"])
    t = C.fnA(VA, "total_block_reward")
    forms = set()
    for x in t.rets():
        st, ad = sum_forms(t, x.value)
        C.ob("schedule", "no level is left out of the total", not may_skip(t, x.value), "an iteration passes the total on without adding to it", t.where(x.pid))
        C.ob("schedule", "the total starts from zero", st <= {"0"}, str(st)[:200], t.where(x.pid))
        forms |= ad
    base = r"(?:initial_block_reward|Shr\((?:\{.*\}|initial_block_reward), 1\)|\{.*\})"
    C.ob("schedule", "the total adds one period at each level of the reward", bool(forms) and all(o == "checked_add" and re.match(rf"^checked_mul\({base}, halving_period\)\.Some\.0$", s) for o, s in forms), str(forms)[:300], t.fn["span"])
    steps = {t.s(v) for c in t.calls() if c.f["name"] == "checked_mul" for v in alts(t, c.val(0))}
    C.ob("schedule", "the level starts from the initial reward and halves", all(s == "initial_block_reward" or re.match(r"^Shr\((?:\{Shr\(μ, 1\) \| initial_block_reward\}|initial_block_reward|μ), 1\)$", s) for s in steps) and "initial_block_reward" in steps, str(steps)[:300], t.fn["span"])
    done = t.edges_matching(lambda s: bool(re.match(r"^(?:initial_block_reward|Shr\(.*, 1\)|\{.*\}) (?:eq 0|le 0|lt 1)$", s)))
    need(C, t, "schedule", "the total is complete when the reward has become zero", t.rets(), done, what="reward equal to zero")


@prop("V06", [VA],
      "path-sensitive required conditions on extending the chain; field-wise provenance of the rebuilt genesis block",
      "validate_block is analysed on all paths: acceptance implies the epoch is neither in the future nor before the tip, the previous hash is the tip's, and either the tip is the bootstrap hash and the genesis check passed, or the proposer is eligible (by stake from wit/2 on, by the random threshold before), its proof is queued with the target it must meet and the block signature check passed. Rejections happen for those reasons only. validate_genesis_block accepts only the configured hash and a block equal to one rebuilt from the bootstrap hash and the value transfers alone. validate_new_transaction hands each kind to its own validator with the caller's state")
def v06(C):
    a = C.fnA(VA, "validate_block", no_inline=keys(C, "validate_genesis_block", "mining_eligibility", "calculate_randpoe_threshold", "add_block_vrf_signature_to_verify", "validate_block_signature", "active_identities_number", "pkh"))
    ends = oks(a)
    B = "block.block_header.beacon"
    need(C, a, "extends", "no block from the future", ends, fact("le", {f"{B}.checkpoint": 1, "current_epoch": -1}))
    need(C, a, "extends", "no block older than the tip", ends, fact("ge", {f"{B}.checkpoint": 1, "chain_beacon.checkpoint": -1}))
    need(C, a, "extends", "the block builds on the tip", ends, fact("eq", {f"{B}.hash_prev_block": 1, "chain_beacon.hash_prev_block": -1}))
    boot = lambda s: s in [f"{x} {o} {y}" for o in ("eq", "ne") for p, q in ((f"chain_beacon.hash_prev_block", "consensus_constants.bootstrap_hash"), (f"{B}.hash_prev_block", "consensus_constants.bootstrap_hash")) for x, y in ((p, q), (q, p))]
    g = a.under(lambda s: boot(s) and " ne " in s)
    checked(C, g, "genesis", "first block", "validate_genesis_block", ("block", "consensus_constants.genesis_hash"))
    n = a.under(lambda s: boot(s) and " eq " in s)
    C.ob("genesis", "the genesis rule is for the first block only", not [c for c in n.calls() if c.f["name"] == "validate_genesis_block"], "genesis check on other blocks", n.fn["span"])
    checked(C, n, "signed", "other blocks", "validate_block_signature", ("block", "signatures_to_verify"))
    new = n.under(ver(("V2_0",), "protocol_version"))
    old = n.under(ver(("V1_7", "V1_8"), "protocol_version"))
    el = [c for c in new.calls() if c.f["name"] == "mining_eligibility"]
    C.ob("eligible", "from wit/2 on eligibility is by the stake of the block's signer at its epoch", bool(el) and all(c.args == ["stakes", "PublicKey::pkh(block.block_sig.public_key)", f"{B}.checkpoint", "replication_factor"] for c in el), str([c.args for c in el])[:300], new.fn["span"])
    for c in el:
        s = new.s(c.value)
        for r in ("InsufficientPower", "NotStaking"):
            no = "Result::Ok{0: Eligible::No{0: IneligibilityReason::%s{}}}" % r
            need(C, new, "eligible", f"from wit/2 on a proposer with {r} is rejected", oks(new), f"{s} ne {no}", f"{no} ne {s}", f"{s} is Err", f"{s}.Ok.0 is Yes", re.compile(rf"^{re.escape(s)}\.Ok\.0\.No\.0 is (?!.*{r})"), f"{s} eq Result::Ok{{0: Eligible::Yes{{}}}}", f"Result::Ok{{0: Eligible::Yes{{}}}} eq {s}")
    for b, l, want in ((new, "from wit/2 on", None), (old, "before wit/2", ("Result::Ok{0", "calculate_randpoe_threshold"))):
        qs = [c for c in b.calls() if c.f["name"] == "add_block_vrf_signature_to_verify"]
        C.ob("eligible", f"{l}: the proof of eligibility is queued", bool(qs), "", b.fn["span"])
        C.must_pass(b, "eligible", f"{l}: the proof of eligibility is queued before acceptance", qs, oks(b), "queued on every accepting path")
        for c in qs:
            C.ob("eligible", f"{l}: the queued proof is the header's over the given input", c.args[:3] == ["signatures_to_verify", "block.block_header.proof", "vrf_input"], str(c.args[:3]), c.where)
            t = c.arg(3)
            if l == "before wit/2":
                th = "calculate_randpoe_threshold(try_from(ActiveReputationSet::active_identities_number(rep_eng.ars)).Ok.0, consensus_constants.mining_backup_factor, %s.checkpoint, consensus_constants.minimum_difficulty, consensus_constants.epochs_with_minimum_difficulty, active_wips).0" % B
                C.ob("eligible", f"{l}: the target is the threshold for the active identities", t.endswith(th) and "{" not in t.replace(th, ""), t[:300], c.where)
            else:
                C.ob("eligible", f"{l}: any proof meets the target", t in ("Hash::max()", "Hash::SHA256{0: [255; 32]}"), t[:300], c.where)
    stated = [fact("gt", {f"{B}.checkpoint": 1, "current_epoch": -1}), fact("lt", {f"{B}.checkpoint": 1, "chain_beacon.checkpoint": -1}), fact("ne", {f"{B}.hash_prev_block": 1, "chain_beacon.hash_prev_block": -1}),
              re.compile(r"validate_genesis_block\(.*\) is Err$"), re.compile(r"^try_from\(ActiveReputationSet::active_identities_number\(.*\)\) is Err$"), re.compile(r"mining_eligibility\(.*\) eq Result::Ok\{0: Eligible::No|Result::Ok\{0: Eligible::No\{.*\} eq .*mining_eligibility\("), re.compile(r"mining_eligibility\(.*\)\.Ok\.0 is No$"), re.compile(r"validate_block_signature\(.*\) is Err$")]
    reasons(C, a, "extends", "a block is rejected only for a stated reason", errs(a), *stated)
    # genesis
    g = C.fnA(VA, "validate_genesis_block", no_inline=keys(C, "hash", "genesis"))
    H = ["Hashable::hash(genesis_block)"]
    need(C, g, "genesis", "the genesis block has the configured hash", oks(g), *[x for h in H for x in (f"{h} eq expected_genesis_hash", f"expected_genesis_hash eq {h}")])
    made = [c for c in g.calls() if c.f["name"] == "genesis"]
    C.ob("genesis", "the genesis block is rebuilt from its own bootstrap hash and value transfers", bool(made) and all(c.args == ["genesis_block.block_header.beacon.hash_prev_block", "genesis_block.txns.value_transfer_txns"] for c in made), str([c.args for c in made]), g.fn["span"])
    need(C, g, "genesis", "the genesis block has nothing else in it", oks(g), *[x for c in made for x in (f"{g.s(c.value)} eq genesis_block", f"genesis_block eq {g.s(c.value)}")], what="equality with the rebuilt block")
    # standalone transactions
    OPQ = ("validate_vt_transaction", "validate_dr_transaction", "validate_commit_transaction", "validate_reveal_transaction", "validate_stake_transaction", "validate_unstake_transaction", "get_validator_min_stake_nanowits", "get_validator_max_stake_nanowits", "get_unstaking_delay_seconds")
    w = C.fnA(VA, "validate_new_transaction", no_inline=keys(C, *OPQ))
    D = "UtxoDiff{diff: Default::default(), utxo_set: @.1, block_number: block_number}"
    for kind, fn, fee in (("ValueTransfer", "validate_vt_transaction", ".2"), ("DataRequest", "validate_dr_transaction", ".2"), ("Commit", "validate_commit_transaction", ".2"), ("Reveal", "validate_reveal_transaction", ""), ("Stake", "validate_stake_transaction", ".2"), ("Unstake", "validate_unstake_transaction", ".0")):
        b = w.under(lambda s: bool(m := re.match(r"^transaction is ([\w/]+)$", s)) and kind not in m.group(1).split("/"))
        cs = [c for c in b.calls() if c.f["name"] == fn and c.arg(0) == f"transaction.{kind}.0"]
        C.ob("standalone", f"{kind} goes to {fn}", bool(cs), str([c.f["name"] for c in b.calls()][:8]), b.fn["span"])
        for r in b.rets():
            for c in cs:
                s = b.s(c.value)
                C.ob("standalone", f"{kind}: the answer is the validator's", r.s in (f"Result::Ok{{0: {s}.Ok.0{fee}}}", s) or r.variant == "Err" or f"{s}.Err.0" in r.s, r.s[:300], b.where(r.pid))
        need(C, b, "standalone", f"{kind}: accepted only by its validator", [r for r in oks(b) if r.s not in {b.s(c.value) for c in cs}], succeeded(b, cs), what=f"{fn} succeeded") if [r for r in oks(b) if r.s not in {b.s(c.value) for c in cs}] else None
        for c in cs:
            ep = [x for x in c.args if x == "current_epoch"]
            if kind != "Reveal":
                C.ob("standalone", f"{kind}: at the current epoch", bool(ep), str(c.args)[:300], c.where)
            us = [x for x in c.args if x.startswith("UtxoDiff")]
            C.ob("standalone", f"{kind}: against the caller's unspent outputs", all(re.fullmatch(r"UtxoDiff\{diff: Default::default\(\), utxo_set: [\w.]*1, block_number: block_number\}|UtxoDiff::new\([\w.]*1, block_number\)", x) for x in us), str(us)[:200], c.where)
    o = w.under(lambda s: bool(m := re.match(r"^transaction is ([\w/]+)$", s)) and not set(m.group(1).split("/")) & {"Tally", "Mint"})
    C.ob("standalone", "mints and tallies are never accepted on their own", not oks(o), "accepted", o.fn["span"])


@prop("V07", [VA],
      "decision of the comparison function in every combination of orderings of the compared components (branches contradicting the combination are removed, what is left is evaluated)",
      "compare_block_candidates is reduced, for each protocol era, to its outcome in every combination of orderings and flags of its components (27 and 432 combinations) and compared with the stated lexicographic order; a total order with reversed arguments giving the reversed answer follows. The slot of a proof is the first target not below it")
def v07(C):
    a = C.fnA(VA, "compare_block_candidates", no_inline=keys(C, "slot"))
    new = a.under(ver(("V2_0",), "protocol_version"))
    C.ob("candidates", "the protocol version decides which order applies", len(new.p.nodes) < len(a.p.nodes), "protocol_version is not consulted", a.fn["span"])
    Order([("power", "b1_power", "b2_power"), ("vrf", "b1_vrf_hash", "b2_vrf_hash"), ("hash", "b1_hash", "b2_hash")]).decide(C, new, "candidates", "from wit/2 on: power, then lower proof hash, then lower block hash", lexi("power", "-vrf", "-hash"))
    old = a.under(ver(("V1_7", "V1_8"), "protocol_version"))

    def rep(k):
        r = f"b{k}_rep.0"
        return (f"rep{k}", {f"{r} gt 0", f"0 lt {r}", f"{r} ne 0", f"0 ne {r}"}, {f"{r} le 0", f"0 ge {r}", f"{r} eq 0", f"0 eq {r}"}, {f"Gt({r}, 0)", f"Ne({r}, 0)", f"Lt(0, {r})"})

    def act(k):
        return (f"act{k}", {f"b{k}_is_active"}, {f"!b{k}_is_active"}, {f"b{k}_is_active"})
    S = lambda x: f"VrfSlots::slot(s, {x})"
    Order([("slot", S("b1_vrf_hash"), S("b2_vrf_hash")), ("vrf", "b1_vrf_hash", "b2_vrf_hash"), ("hash", "b1_hash", "b2_hash")], [rep(1), rep(2), act(1), act(2)]).decide(C, old, "candidates", "before wit/2: lower slot, then reputation, then activity, then lower proof hash, then lower block hash", lexi("-slot", "rep1/rep2", "act1/act2", "-vrf", "-hash"))
    s = C.A(VA, "VrfSlots", "slot")
    for r in s.rets():
        m = re.match(r"^(?:try_from|try_into)\(\{(?:len\(self\.target_hashes\) \| (?:position_index|idx)\(self\.target_hashes\)|idx\(self\.target_hashes\) \| len\(self\.target_hashes\))\}\)\.Ok\.0$", r.s)
        C.ob("slot", "the slot is the position of a target, or the number of targets", bool(m), r.s[:200], s.where(r.pid))
    found = s.edges_matching(lambda x: x in ("elem(self.target_hashes) ge hash", "hash le elem(self.target_hashes)"))
    past = s.edges_matching(lambda x: x in ("elem(self.target_hashes) lt hash", "hash gt elem(self.target_hashes)"))
    first_match(C, s, "slot", "the slot is the first target not below the hash", ["self.target_hashes", "enumerate(self.target_hashes)"], past, found, s.rets())


DRV = r"^ControlFlow|^Result::|^Option::"


@prop("V08", [VA],
      "path-sensitive required conditions on accepting commitments and reveals; argument provenance of the queued eligibility proof",
      "validate_commit_transaction and validate_reveal_transaction are analysed on all paths, per protocol era. Acceptance of a commitment implies: the request exists and is in its commit stage, the proof's key is eligible for it (by stake from wit/2 on), at most one non-zero change output back to that key, the collateral check passed for the request's collateral or the minimum, the signer is the prover, and the proof is queued against the right target, request, withdrawer and era. Acceptance of a reveal implies: request in its reveal stage, signer is the stated revealer, no earlier reveal, an earlier commitment, whose commitment equals the hash of the reveal's signature. Each rejection has one of these reasons")
def v08(C):
    a0 = C.fnA(VA, "validate_commit_transaction", no_inline=keys(C, "validate_commit_collateral", "calculate_reppoe_threshold", "witnessing_eligibility", "add_dr_vrf_signature_to_verify", "validate_commit_reveal_signature", "pkh", "hash", "get_protocol_version", "from_epoch", "query_stakes", "epoch_timestamp", "wip_0008", "backup_witnesses"))
    D = "get(dr_pool.data_request_pool, co_tx.body.dr_pointer).Some.0"
    P = "VrfProof::pkh(co_tx.body.proof.proof)"
    outs = "co_tx.body.outputs"
    need(C, a0, "commit-stage", "the request exists", oks(a0), D[:-7] + " is Some", what="request found in the pool")
    need(C, a0, "commit-stage", "the request accepts commitments", oks(a0), f"{D}.stage eq DataRequestStage::COMMIT{{}}", f"{D}.stage is COMMIT", what="stage is COMMIT")
    EL = f"Eligibility::witnessing_eligibility(stakes, {P}, epoch, {D}.data_request.witnesses, {D}.info.current_commit_round, max_rounds)"
    SIG = "validations::validate_commit_reveal_signature(Hashable::hash(co_tx), co_tx.signatures, signatures_to_verify)"
    SG = f"PublicKey::pkh({SIG}.Ok.0.public_key)"
    for vs, label in ((("V2_0", "V2_1"), "from wit/2 on"), (("V1_7", "V1_8"), "before wit/2")):
        b = a0.under(ver(vs, "protocol_version"))
        ends = oks(b)
        C.ob("commit-eligible", f"{label}: acceptance is possible", bool(ends), "", b.fn["span"])
        if label == "from wit/2 on":
            need(C, b, "commit-eligible", f"{label}: the prover is eligible for the request in this epoch and round", ends, f"{EL}.Ok.0.0 is Yes", f"{EL}.Ok.0.0 eq Eligible::Yes{{}}", f"Eligible::Yes{{}} eq {EL}.Ok.0.0", what="witnessing eligibility answered yes")
        need(C, b, "commit-outputs", f"{label}: at most one output", ends, fact("le", {f"len({outs})": 1}, -1))
        some = b.under(lambda s: s in (f"first({outs}) is None", f"is_empty({outs})", f"len({outs}) eq 0", f"next({outs}) is None") and not (s.startswith("next") and 0))
        one = [f"{outs}[0]", f"elem({outs})", f"first({outs}).Some.0"]
        done = b.edges_matching(lambda s: s == f"next({outs}) is None")
        empty = edges(b, f"first({outs}) is None", f"is_empty({outs})", f"len({outs}) eq 0", fact("lt", {f"len({outs})": 1}, -1))
        need(C, b, "commit-outputs", f"{label}: the change is not zero", ends, *[f"{o}.value {c}" for o in one for c in ("ne 0", "gt 0", "ge 1")], empty, done, what="the output, if any, has value")
        need(C, b, "commit-outputs", f"{label}: the change goes back to the prover", ends, *[x for o in one for x in (f"{o}.pkh eq {P}", f"{P} eq {o}.pkh", f"{o}.pkh eq {SG}", f"{SG} eq {o}.pkh")], empty, done, what="the output, if any, is the prover's")
        for e in done:
            C.ob("commit-outputs", f"{label}: every output is looked at", True, "", b.where(e[0]))
        col = calls_to(b, "validate_commit_collateral", "co_tx", "utxo_diff", "epoch", "epoch_constants", None, "block_number", "collateral_age", "superblock_period", "protocol_version", "stakes", "min_stake")
        C.ob("commit-collateral", f"{label}: the collateral is checked with the caller's values", bool(col), str([c.args for c in b.calls() if c.f["name"] == "validate_commit_collateral"])[:400], b.fn["span"])
        need(C, b, "commit-collateral", f"{label}: the collateral check passed", ends, succeeded(b, col), what="validate_commit_collateral succeeded")
        CO = f"{D}.data_request.collateral"
        for z, cond, want in (("none stated", lambda s: s in (f"{CO} ne 0", f"0 ne {CO}", f"{CO} gt 0", f"0 lt {CO}", f"{CO} ge 1"), {"collateral_minimum"}), ("stated", lambda s: s in (f"{CO} eq 0", f"0 eq {CO}", f"{CO} le 0", f"0 ge {CO}", f"{CO} lt 1"), {CO})):
            q = b.under(cond)
            got = {q.s(v) for c in q.calls() if c.f["name"] == "validate_commit_collateral" for v in alts(q, c.val(4))}
            C.ob("commit-collateral", f"{label}: the collateral asked for is the request's, or the minimum when {z}" if z == "none stated" else f"{label}: the collateral asked for is the request's when {z}", got == want and len(q.p.nodes) < len(b.p.nodes), str(got)[:300], b.fn["span"])
        nowip = b.under(lambda s: s.startswith("ActiveWips::wip_0008(active_wips)"))
        TL, TS = f"try_from({D}.data_request.data_request.time_lock).Ok.0", "EpochConstants::epoch_timestamp(epoch_constants, epoch).Ok.0.0"
        need(C, nowip, "commit-timelock", f"{label}: before the fork that removed it the time lock has passed", oks(nowip), fact("le", {TL: 1, TS: -1}), f"{TL} le {TS}", fact("le", {f"{D}.data_request.data_request.time_lock": 1, TS: -1}), what="time lock not above the epoch's time")
        need(C, b, "commit-signer", f"{label}: the signature is queued", ends, f"{SIG} is Ok", what="validate_commit_reveal_signature succeeded")
        need(C, b, "commit-signer", f"{label}: the signer is the prover", ends, f"{SG} eq {P}", f"{P} eq {SG}")
        qs = calls_to(b, "add_dr_vrf_signature_to_verify", "signatures_to_verify", "co_tx.body.proof", "vrf_input", "co_tx.body.dr_pointer")
        C.must_pass(b, "commit-proof", f"{label}: the proof is queued for this request and input", qs, ends, "queued on every accepting path")
        for c in qs:
            t = {b.s(v) for v in alts(b, c.val(4))}
            if label == "from wit/2 on":
                C.ob("commit-proof", f"{label}: the proof must meet the eligibility's own target", t == {f"{EL}.Ok.0.1"}, str(t)[:300], c.where)
            else:
                th = rf"(?:\w+::)*calculate_reppoe_threshold\(rep_eng, (?:{re.escape(P)}|{re.escape(SG)}), (?:saturating_add|Add|wrapping_add)\((?:{re.escape(D)}\.data_request\.witnesses, DataRequestState::backup_witnesses\({re.escape(D)}\)|DataRequestState::backup_witnesses\({re.escape(D)}\), {re.escape(D)}\.data_request\.witnesses)\), minimum_reppoe_difficulty, active_wips\)\.0"
                C.ob("commit-proof", f"{label}: the proof must meet the threshold for its reputation and all witnesses", len(t) == 1 and all(re.fullmatch(th, x) for x in t), str(t)[:400], c.where)
            C.ob("commit-proof", f"{label}: the proof is checked by the rules of the request's era", c.arg(6) == f"Option::Some{{0: {D}.epoch}}", c.arg(6)[:200], c.where)
        if label == "from wit/2 on":
            w = {b.s(v) for c in qs for v in alts(b, c.val(5))}
            C.ob("commit-proof", f"{label}: the proof is bound to the withdrawer of the prover's first stake", any("[0].key.withdrawer" in x for x in w) and all(x == "Option::None{}" or re.match(r"^Option::Some\{0: .*\[0\]\.key\.withdrawer\}$", x) and f"query_stakes(stakes, QueryStakesKey::Validator{{0: {P}}})" in x for x in w), str(w)[:300], b.fn["span"])
        for r in ends:
            C.ob("commit-answer", f"{label}: answers the request, its witnesses and the fee of a commitment", r.s == f"Result::Ok{{0: tuple{{0: co_tx.body.dr_pointer, 1: {D}.data_request.witnesses, 2: {D}.data_request.commit_and_reveal_fee}}}}", r.s[:300], b.where(r.pid))
        reasons(C, b, "commit-reasons", f"{label}: rejected only for a stated reason", errs(b), D[:-7] + " is None", f"{D}.stage ne DataRequestStage::COMMIT{{}}", re.compile(rf"^{re.escape(D)}\.stage is (?!COMMIT$)"), f"{EL}.Ok.0.0 is No", f"{EL}.Ok.0.0 ne Eligible::Yes{{}}", f"Eligible::Yes{{}} ne {EL}.Ok.0.0", f"{EL} is Err", fact("gt", {f"len({outs})": 1}, -1),
                *[f"{o}.value {c}" for o in one for c in ("eq 0", "le 0", "lt 1")], *[x for o in one for x in (f"{o}.pkh ne {P}", f"{P} ne {o}.pkh")], re.compile(r"validate_commit_collateral\(.*\) is Err$"), re.compile(r"^EpochConstants::epoch_timestamp\(.*\) is Err$"), re.compile(r"^try_from\(.*time_lock\) is Err$"), fact("gt", {TL: 1, TS: -1}), f"{TL} gt {TS}", f"{SIG} is Err", f"{SG} ne {P}", f"{P} ne {SG}")
    a = C.fnA(VA, "validate_reveal_transaction", no_inline=keys(C, "validate_commit_reveal_signature", "pkh", "hash"))
    D = "get(dr_pool.data_request_pool, re_tx.body.dr_pointer).Some.0"
    SIG = "validations::validate_commit_reveal_signature(Hashable::hash(re_tx), re_tx.signatures, signatures_to_verify)"
    SG, PK = f"PublicKey::pkh({SIG}.Ok.0.public_key)", "re_tx.body.pkh"
    ends = oks(a)
    need(C, a, "reveal-stage", "the request exists", ends, D[:-7] + " is Some")
    need(C, a, "reveal-stage", "the request accepts reveals", ends, f"{D}.stage eq DataRequestStage::REVEAL{{}}", f"{D}.stage is REVEAL")
    need(C, a, "reveal-signer", "the signature is queued", ends, f"{SIG} is Ok")
    need(C, a, "reveal-signer", "the signer is the stated revealer", ends, f"{SG} eq {PK}", f"{PK} eq {SG}")
    need(C, a, "reveal-once", "the revealer has not revealed yet", ends, *[f"{n}({D}.info.reveals, {p}){e}" for n, e in (("!contains_key", ""), ("get", " is None")) for p in (SG, PK)], what="no reveal by that key yet")
    gets = [f"get({D}.info.commits, {p})" for p in (SG, PK)]
    need(C, a, "reveal-commit", "the revealer has committed", ends, *[f"{g} is Some" for g in gets])
    HS = f"Hashable::hash({SIG}.Ok.0.signature)"
    need(C, a, "reveal-commit", "the reveal opens the commitment", ends, *[x for g in gets for x in (f"{g}.Some.0.body.commitment eq {HS}", f"{HS} eq {g}.Some.0.body.commitment")], what="commitment equals the hash of the reveal's signature")
    for r in ends:
        C.ob("reveal-answer", "answers the fee of a reveal", r.s == f"Result::Ok{{0: {D}.data_request.commit_and_reveal_fee}}", r.s[:300], a.where(r.pid))
    reasons(C, a, "reveal-reasons", "rejected only for a stated reason", errs(a), D[:-7] + " is None", f"{D}.stage ne DataRequestStage::REVEAL{{}}", re.compile(rf"^{re.escape(D)}\.stage is (?!REVEAL$)"), f"{SIG} is Err", f"{SG} ne {PK}", f"{PK} ne {SG}", *[x for p in (SG, PK) for x in (f"contains_key({D}.info.reveals, {p})", f"get({D}.info.reveals, {p}) is Some")], *[f"{g} is None" for g in gets], *[x for g in gets for x in (f"{g}.Some.0.body.commitment ne {HS}", f"{HS} ne {g}.Some.0.body.commitment")])


@prop("V09", [VA],
      "path-sensitive required conditions (linear facts per protocol version) on accepting stake and unstake transactions",
      "validate_stake_transaction and validate_unstake_transaction are analysed on all paths, per protocol version. Acceptance of a stake implies: the version allows it, the amount is at least the minimum, the validator has no other withdrawer, the amount plus what that key already stakes stays within the maximum without overflow, it has inputs, its signatures and fee were checked, and the validator authorised the withdrawer. Acceptance of an unstake implies: the version allows it, the amount with the fee is covered by the stake, the nonce is the stake's, the remainder is nothing or at least the minimum, the time lock is long enough, and the withdrawer signed. Each rejection has one of these reasons")
def v09(C):
    PV = "witnet_data_structures::get_protocol_version(Option::Some{0: epoch})"
    a = C.fnA(VA, "validate_stake_transaction", no_inline=keys(C, "get_protocol_version", "validate_transaction_signature", "st_transaction_fee", "check_validator_withdrawer", "query_stakes", "hash", "weight", "pkh", "authorization_is_valid"))
    O = "st_tx.body.output"
    VAL, K = f"{O}.value", f"{O}.key"
    ends = oks(a)
    old = a.under(ver(("V1_7",), PV))
    C.ob("stake-version", "no stake before staking is activated", not oks(old), "accepted under V1_7", a.fn["span"])
    for v in ("V1_8", "V2_0", "V2_1"):
        C.ob("stake-version", f"stakes are possible under {v}", bool(oks(a.under(ver((v,), PV)))), "never accepted", a.fn["span"])
    need(C, a, "stake-minimum", "the amount is at least the minimum", ends, fact("ge", {VAL: 1, "min_stake_nanowits": -1}))
    CW = f"Stakes::check_validator_withdrawer(stakes, {K}.validator, {K}.withdrawer)"
    need(C, a, "stake-withdrawer", "the validator has no other withdrawer", ends, f"{CW} is Ok", f"!is_err({CW})", f"is_ok({CW})")
    Q = f"Stakes::query_stakes(stakes, QueryStakesKey::Key{{0: {K}}})"
    none = a.under(lambda s: s in (f"{Q} is Ok", f"!is_err({Q})", f"is_ok({Q})", f"first({Q}.Ok.0) is Some"))
    some = a.under(lambda s: s in (f"{Q} is Err", f"is_err({Q})", f"!is_ok({Q})", f"first({Q}.Ok.0) is None"))
    S = f"{Q}.Ok.0[0].value.coins"
    need(C, none, "stake-maximum", "a first stake is at most the maximum", oks(none), fact("le", {VAL: 1, "max_stake_nanowits": -1}), *total(0, VAL), what="amount <= maximum")
    need(C, some, "stake-maximum", "with what the key already stakes the total is at most the maximum, without overflow", oks(some), *total(S, VAL), what="stake + amount <= maximum, saturating or checked")
    TS = "validations::validate_transaction_signature(st_tx.signatures, st_tx.body.inputs, Hashable::hash(st_tx), utxo_diff, signatures_to_verify)"
    FEE = "validations::st_transaction_fee(st_tx, utxo_diff, epoch, epoch_constants)"
    need(C, a, "stake-checks", "its signatures are checked", ends, f"{TS} is Ok")
    need(C, a, "stake-checks", "it has inputs", ends, *a.empty_strs("st_tx.body.inputs", False))
    need(C, a, "stake-checks", "its fee is computed", ends, f"{FEE} is Ok")
    need(C, a, "stake-authorization", "the authorisation of the withdrawer is verified", ends, "StakeTransactionBody::authorization_is_valid(st_tx.body) is Ok", what="st_tx.body.authorization_is_valid() succeeded")
    AP = f"PublicKey::pkh({O}.authorization.public_key)"
    need(C, a, "stake-authorization", "the authorisation is by the validator's key", ends, f"{AP} eq {K}.validator", f"{K}.validator eq {AP}")
    for r in ends:
        C.ob("stake-answer", "answers the inputs, the stake, the fee, the weight and the change", r.s == f"Result::Ok{{0: tuple{{0: collect(st_tx.body.inputs), 1: {O}, 2: {FEE}.Ok.0, 3: StakeTransaction::weight(st_tx), 4: st_tx.body.change}}}}", r.s[:300], a.where(r.pid))
    for b, w in ((none, "a first stake"), (some, "a further stake")):
        reasons(C, b, "stake-reasons", f"{w} is rejected only for a stated reason", errs(b), f"ProtocolVersion::V1_7{{}} eq {PV}", f"{PV} is V1_7", f"ProtocolVersion::V1_8{{}} gt {PV}", f"ProtocolVersion::V1_7{{}} ge {PV}", fact("lt", {VAL: 1, "min_stake_nanowits": -1}),
                f"{CW} is Err", f"is_err({CW})", fact("gt", {VAL: 1, "max_stake_nanowits": -1}), fact("gt", {f"saturating_add({S}, {VAL})": 1, "max_stake_nanowits": -1}), fact("gt", {f"saturating_add({VAL}, {S})": 1, "max_stake_nanowits": -1}),
                fact("gt", {f"checked_add({S}, {VAL}).Some.0": 1, "max_stake_nanowits": -1}), fact("gt", {f"checked_add({VAL}, {S}).Some.0": 1, "max_stake_nanowits": -1}), f"checked_add({S}, {VAL}) is None", f"checked_add({VAL}, {S}) is None",
                f"{TS} is Err", f"{FEE} is Err", *a.empty_strs("st_tx.body.inputs", True), "StakeTransactionBody::authorization_is_valid(st_tx.body) is Err", f"{AP} ne {K}.validator", f"{K}.validator ne {AP}")

    a = C.fnA(VA, "validate_unstake_transaction", no_inline=keys(C, "get_protocol_version", "ut_transaction_fee", "query_stakes", "hash", "weight", "pkh", "validate_unstake_signature"))
    VAL, FE, WP = "ut_tx.body.withdrawal.value", "ut_tx.body.fee", "PublicKey::pkh(ut_tx.signature.public_key)"
    SIG = "validations::validate_unstake_signature(ut_tx, ut_tx.body.operator)"
    wps = [WP]
    Qs = [f"Stakes::query_stakes(stakes, QueryStakesKey::Key{{0: StakeKey{{validator: ut_tx.body.operator, withdrawer: {w}}}}})" for w in wps]
    for vs, label in ((("V1_7", "V1_8"), "before wit/2"), (("V2_0",), "under wit/2"), (("V2_1",), "from wit/2.1 on")):
        b = a.under(ver(vs, PV))
        ends = oks(b)
        if label == "before wit/2":
            C.ob("unstake-version", "no unstake before wit/2", not ends, f"accepted {label}", a.fn["span"])
            continue
        C.ob("unstake-version", f"unstakes are possible {label}", bool(ends), "never accepted", a.fn["span"])
        Q = Qs[0]
        S = f"{Q}.Ok.0[0].value.coins"
        cas = [f"checked_add({VAL}, {FE})", f"checked_add({FE}, {VAL})"]
        need(C, b, "unstake-covered", f"{label}: the sum of withdrawal and fee does not overflow", ends, *[f"{x} is Some" for x in cas], what="checked sum")
        need(C, b, "unstake-covered", f"{label}: withdrawal and fee are covered by the stake of that validator and signer", ends, fact("le", {VAL: 1, FE: 1, S: -1}), *[f for x in cas for f in (fact("le", {f"{x}.Some.0": 1, S: -1}), f"checked_sub({S}, {x}.Some.0) is Some")], what="withdrawal + fee <= stake")
        NS = f"{Q}.Ok.0[0].value.nonce"
        need(C, b, "unstake-nonce", f"{label}: the nonce is the stake's", ends, f"ut_tx.body.nonce eq {NS}", f"{NS} eq ut_tx.body.nonce")
        need(C, b, "unstake-timelock", f"{label}: the time lock is at least the delay", ends, fact("ge", {"ut_tx.body.withdrawal.time_lock": 1, "unstake_delay": -1}))
        need(C, b, "unstake-signer", f"{label}: the withdrawer signed", ends, f"{SIG} is Ok")
        FEE = f"validations::ut_transaction_fee(ut_tx, {S})"
        need(C, b, "unstake-fee", f"{label}: the fee is checked against the stake", ends, f"{FEE} is Ok")
        for r in ends:
            C.ob("unstake-answer", f"{label}: answers fee, weight and withdrawal", r.s == f"Result::Ok{{0: tuple{{0: {FEE}.Ok.0, 1: UnstakeTransaction::weight(ut_tx), 2: vec[ut_tx.body.withdrawal]}}}}", r.s[:300], b.where(r.pid))
        rems = [{S: 1, VAL: -1, FE: -1}] + [{x: 1} for q in cas for x in (f"checked_sub({S}, {q}.Some.0).Some.0", f"saturating_sub({S}, {q}.Some.0)")]
        phi = re.compile(r"^(?:(?:saturating_sub|Sub)\(.*\) lt min_stake_nanowits|min_stake_nanowits gt (?:saturating_sub|Sub)\(.*\))$")
        between = r"contains\((?:ops::)?Range\{start: 1, end: min_stake_nanowits\}, (?:saturating_sub|Sub)\("
        cases = [("", b)]
        if label == "from wit/2.1 on":
            zero = {f"{q}.Some.0 {o}" for q in cas for o in ("eq 0", "lt 1", "le 0")} | {f"0 {o} {q}.Some.0" for q in cas for o in ("eq", "ge")}
            cases = [(", for an amount", b.under(lambda s: s in zero))]
        for extra, q in cases:
            z = [fact(o, r) for r in rems for o in ("eq", "le")]
            m = [fact("ge", {**r, "min_stake_nanowits": -1}) for r in rems]
            out = {e for e in q.edges_matching("^!" + between) if any(form(lin(q, x)) == form(r) for r in rems for x in contained(q, e))}
            need(C, q, "unstake-remainder", f"{label}{extra}: what stays is nothing or at least the minimum", oks(q), *z, *m, out, what="remainder is 0 or >= minimum")
        negs = [fact("lt", {**r, "min_stake_nanowits": -1}) for r in rems]
        reasons(C, b, "unstake-reasons", f"{label}: rejected only for a stated reason", errs(b), *[f"{x} is None" for x in cas], f"{Q} is Err", f"first({Q}.Ok.0) is None", fact("gt", {VAL: 1, FE: 1, S: -1}), *[f"checked_sub({S}, {x}.Some.0) is None" for x in cas],
                f"ut_tx.body.nonce ne {NS}", f"{NS} ne ut_tx.body.nonce", *negs, *([phi] if "2.1" in label else []), re.compile("^" + between), fact("lt", {"ut_tx.body.withdrawal.time_lock": 1, "unstake_delay": -1}), f"{SIG} is Err", f"{FEE} is Err")


def contained(a, e):
    """alternatives of the value asked to be in a range by the condition of edge E"""
    at = a.fl.atom(*e)
    t = a.v.t(a.v.strip(at[1]))
    return alts(a, t[2][1]) if t[0] == "call" and len(t[2]) == 2 else []


def total(s, v):
    """wanted facts: S + V is at most the maximum"""
    if not s:
        return []
    t = [{f"{n}({x}, {y}){e}": 1} for n, e in (("saturating_add", ""), ("checked_add", ".Some.0")) for x, y in ((s, v), (v, s))]
    t += [{x: 1, y: 1} for x, y in ((f"from({s})", f"from({v})"),)]
    t += [{v: 1, f"{n}(max_stake_nanowits, {s}){e}": -1} for n, e in (("saturating_sub", ""), ("checked_sub", ".Some.0"))]
    return [fact("le", {**x, **({} if any("max_stake" in k for k in x) else {"max_stake_nanowits": -1})}) for x in t]


@prop("V10", [VA],
      "path-sensitive required conditions, interval analysis of the consensus percentage and per-iteration obligations over the sources of a request, per protocol upgrade",
      "validate_dr_transaction, validate_data_request_output, calculate_reward_collateral_ratio and validate_rad_request are analysed on all paths. Acceptance of a data request implies: weight within the limit, inputs, at most one non-zero output returning to the owner of the first input, signatures and fee checked, at least one witness and one nanowit of reward each, a consensus percentage from 51 to 99 (by intervals), the required reward to collateral ratio once in force, collateral zero or at least the minimum, and a valid request: at least one source, each of an allowed kind with the fields of its kind and a readable script, and aggregation and tally stages that convert. Each rejection has one of these reasons")
def v10(C):
    a = C.fnA(VA, "validate_dr_transaction", no_inline=keys(C, "validate_transaction_signature", "dr_transaction_fee", "hash", "weight", "versioned_hash", "validate_rad_request", "validate_data_request_output", "get"))
    ends = oks(a)
    T, OUT = "dr_tx.body", "dr_tx.body.outputs"
    R = f"{T}.dr_output"
    W = "DRTransaction::weight(dr_tx)"
    PVR = "{Default::default() | protocol_version.Some.0}"
    TS = f"validations::validate_transaction_signature(dr_tx.signatures, {T}.inputs, VersionedHashable::versioned_hash(dr_tx, {PVR}), utxo_diff, signatures_to_verify)"
    FEE = "validations::dr_transaction_fee(dr_tx, utxo_diff, epoch, epoch_constants)"
    need(C, a, "request-weight", "the weight is within the limit", ends, fact("le", {W: 1, "max_dr_weight": -1}))
    need(C, a, "request-checks", "its signatures are checked over its own hash", ends, f"{TS} is Ok")
    need(C, a, "request-checks", "its fee is computed", ends, f"{FEE} is Ok")
    need(C, a, "request-checks", "it has inputs", ends, *a.empty_strs(f"{T}.inputs", False))
    need(C, a, "request-change", "at most one output", ends, fact("le", {f"len({OUT})": 1}, -1))
    one = [f"{OUT}[0]", f"elem({OUT})"]
    empty = edges(a, *a.empty_strs(OUT, True), f"first({OUT}) is None", f"next({OUT}) is None", f"next(enumerate({OUT})) is None")
    need(C, a, "request-change", "the change is not zero", ends, *[x for o in one for x in (f"{o}.value ne 0", f"{o}.value gt 0", f"{o}.value ge 1")], empty)
    own = [f"UtxoDiff::get(utxo_diff, {T}.inputs[0].output_pointer).Some.0.pkh"]
    need(C, a, "request-change", "the change returns to the owner of the first input", ends, *[x for o in one for w in own for x in (f"{o}.pkh eq {w}", f"{w} eq {o}.pkh")], empty)
    VO = f"validations::validate_data_request_output({R}, collateral_minimum, required_reward_collateral_ratio, active_wips)"
    VR = f"validations::validate_rad_request({R}.data_request, active_wips)"
    need(C, a, "request-output", "its terms are checked", ends, f"{VO} is Ok")
    need(C, a, "request-sources", "its sources and stages are checked", ends, f"{VR} is Ok")
    CO = f"{R}.collateral"
    need(C, a, "request-collateral", "the collateral is the default or at least the minimum", ends, fact("eq", {CO: 1}), fact("le", {CO: 1}), fact("ge", {CO: 1, "collateral_minimum": -1}))
    for r in ends:
        C.ob("request-answer", "answers inputs, outputs and fee", r.s == f"Result::Ok{{0: tuple{{0: collect({T}.inputs), 1: collect({OUT}), 2: {FEE}.Ok.0}}}}", r.s[:300], a.where(r.pid))
    reasons(C, a, "request-reasons", "a request transaction is rejected only for a stated reason", errs(a), fact("gt", {W: 1, "max_dr_weight": -1}), f"{TS} is Err", f"{FEE} is Err", *a.empty_strs(f"{T}.inputs", True), fact("gt", {f"len({OUT})": 1}, -1),
            *[x for o in one for x in (f"{o}.value eq 0", f"{o}.value le 0", f"{o}.value lt 1")], *[x for o in one for w in own for x in (f"{o}.pkh ne {w}", f"{w} ne {o}.pkh")], f"{VO} is Err", f"{VR} is Err", fact("lt", {CO: 1, "collateral_minimum": -1}))

    a = C.fnA(VA, "validate_data_request_output", no_inline=keys(C, "calculate_reward_collateral_ratio", "wip0022"))
    ends = oks(a)
    need(C, a, "terms-witnesses", "at least one witness", ends, fact("ge", {"request.witnesses": 1}, -1), fact("ne", {"request.witnesses": 1}))
    need(C, a, "terms-reward", "at least one nanowit of reward", ends, fact("ge", {"request.witness_reward": 1}, -1), fact("ne", {"request.witness_reward": 1}))
    d = domain(a, "request.min_consensus_percentage", ends, (0, 2**32 - 1))
    C.ob("terms-consensus", "the consensus percentage is from 51 to 99", d == [(51, 99)], f"accepted values: {d}", a.fn["span"])
    WIP = "ActiveWips::wip0022(active_wips)"
    RT = "data_request::calculate_reward_collateral_ratio(request.collateral, collateral_minimum, request.witness_reward)"
    on = a.under(lambda s: s == "!" + WIP)
    need(C, on, "terms-ratio", "once in force the ratio of collateral to reward is at most the required one", oks(on), fact("le", {RT: 1, "required_reward_collateral_ratio": -1}))
    off = a.under(lambda s: s == WIP)
    C.ob("terms-ratio", "before it, the ratio does not matter", bool(oks(off)) and not off.edges_matching(lambda s: RT in s), "", a.fn["span"])
    rd = errs(a)
    good = edges(a, fact("lt", {"request.witnesses": 1}, -1), fact("eq", {"request.witnesses": 1}), fact("lt", {"request.witness_reward": 1}, -1), fact("eq", {"request.witness_reward": 1}), fact("gt", {RT: 1, "required_reward_collateral_ratio": -1}))
    for r in rd:
        p = a.paths_avoiding([r.pid], cut_edges=good)
        if p:
            dom = domain(a, "request.min_consensus_percentage", [r.pid], (0, 2**32 - 1), avoid=[])
            C.ob("terms-reasons", "a request is refused only for a stated reason", all(hi < 51 or lo > 99 for lo, hi in dom), f"refused with a consensus percentage of {dom}", a.where(r.pid), a.describe(p))
        else:
            C.ob("terms-reasons", "a request is refused only for a stated reason", True, "", a.where(r.pid))
    a = C.fnA(DS, "calculate_reward_collateral_ratio", no_inline=keys(C, "saturating_div_ceil"))
    nz = a.under(lambda s: s in ("collateral eq 0", "0 eq collateral", "collateral le 0", "0 ge collateral", "collateral lt 1"))
    z = a.under(lambda s: s in ("collateral ne 0", "0 ne collateral", "collateral gt 0", "0 lt collateral", "collateral ge 1"))
    for b, w, inst in ((nz, "collateral", "a stated collateral is used"), (z, "collateral_minimum", "no collateral means the minimum")):
        got = {b.s(v) for r in b.rets() for v in alts(b, r.value)}
        C.ob("terms-ratio", inst, bool(got) and all(re.fullmatch(r"(?:\w+::)*saturating_div_ceil\(%s, witness_reward\)" % w, g) for g in got), str(got), b.fn["span"])
    a = C.fnA(DS, "saturating_div_ceil")
    z = lambda x: {f"{x} {o}" for o in ("ne 0", "gt 0", "ge 1")} | {f"0 {o} {x}" for o in ("ne", "lt")} | {f"1 le {x}"}
    nz = lambda x: {f"{x} {o}" for o in ("eq 0", "le 0", "lt 1")} | {f"0 {o} {x}" for o in ("eq", "ge")} | {f"1 gt {x}"}
    rem, quo, ceil = "Rem(lhs, rhs)", "Div(lhs, rhs)", {"div_ceil(lhs, rhs)"}
    for label, contra, want in (("no reward gives the highest ratio", z("rhs"), {"18446744073709551615"}), ("an exact ratio is kept", nz("rhs") | z(rem), ceil | {quo}), ("other ratios are rounded up", nz("rhs") | nz(rem), ceil | {f"Add({quo}, 1)", f"Add(1, {quo})", f"saturating_add({quo}, 1)"})):
        b = a.under(lambda s: s in contra)
        got = {b.s(v) for r in b.rets() for v in alts(b, r.value)}
        C.ob("terms-ratio", label, bool(got) and got <= want, str(got), a.fn["span"])

    a = C.fnA(VA, "validate_rad_request", no_inline=keys(C, "check_fields", "unpack_radon_script", "check_fields_before_wip0020", "create_radon_script_from_filters_and_reducer", "wip0020", "wip0019", "wip0017"))
    ends = oks(a)
    need(C, a, "sources-some", "there is at least one source", ends, *a.empty_strs("rad_request.retrieve", False))
    mk = lambda w: f"script::create_radon_script_from_filters_and_reducer(rad_request.{w}.filters, rad_request.{w}.reducer, active_wips)"
    for w in ("aggregate", "tally"):
        need(C, a, "sources-stages", f"the {w} stage converts", ends, f"{mk(w)} is Ok")
    E = "elem(rad_request.retrieve)"
    CF, CB, US = f"RADRetrieve::check_fields({E})", f"RADRetrieve::check_fields_before_wip0020({E})", f"script::unpack_radon_script({E}.script)"
    colls = ["rad_request.retrieve", "enumerate(rad_request.retrieve)"]
    w20, w19 = "ActiveWips::wip0020(active_wips)", "ActiveWips::wip0019(active_wips)"
    K = lambda *k: re.compile("^(?:%s)$" % "|".join([rf"{re.escape(E)}\.kind eq RADType::{x}\{{\}}|RADType::{x}\{{\}} eq {re.escape(E)}\.kind" for x in k] + [rf"{re.escape(E)}\.kind is (?:{'|'.join(k)})(?:/(?:{'|'.join(k)}))*"]))
    NK = lambda *k: re.compile("^(?:%s)$" % "|".join([rf"{re.escape(E)}\.kind ne RADType::{x}\{{\}}|RADType::{x}\{{\}} ne {re.escape(E)}\.kind" for x in k] + [rf"{re.escape(E)}\.kind is (?!.*(?:{'|'.join(k)})).*"]))
    for label, contra, kinds, chk in (("once WIP-0020 is active", both(lambda s: s == "!" + w20), None, CF), ("between WIP-0019 and WIP-0020", both(lambda s: s in (w20, "!" + w19)), ("HttpGet", "Rng"), CB), ("before WIP-0019", both(lambda s: s in (w20, w19)), ("Unknown",), CB)):
        b = a.under(contra)
        en = oks(b)
        C.ob("sources-kind", f"{label}: requests are possible", bool(en), "", a.fn["span"])
        if kinds:
            per_element(C, b, "sources-kind", f"{label}: each source is of kind {' or '.join(kinds)}", colls, en, "kind checked", cut=edges(b, K(*kinds)))
        per_element(C, b, "sources-fields", f"{label}: each source has the fields of its kind", colls, en, "fields checked", cut=edges(b, f"{chk} is Ok"))
        per_element(C, b, "sources-script", f"{label}: each source has a readable script", colls, en, "script unpacked", cut=edges(b, f"{US} is Ok"))
        xml = "RadonOpCodes::StringParseXMLMap{}"
        ec = f"elem({US}.Ok.0).0"
        if kinds:
            ne = edges(b, f"{ec} ne {xml}", f"{xml} ne {ec}", re.compile(rf"^{re.escape(ec)} is (?!.*StringParseXMLMap)"))
            per_nested(C, b, "sources-operators", f"{label}: no script uses the operator introduced later", colls, [f"{US}.Ok.0", f"enumerate({US}.Ok.0)"], en, "every operator of every script checked", cut=ne)
        why = [f"{chk} is Err", f"{US} is Err", *[f"{mk(w)} is Err" for w in ("aggregate", "tally")], *b.empty_strs("rad_request.retrieve", True)]
        if kinds:
            why += [f"{ec} eq {xml}", f"{xml} eq {ec}", f"{ec} is StringParseXMLMap", *[re.compile(NK(k).pattern) for k in kinds[-1:]]]
        reasons(C, b, "sources-reasons", f"{label}: refused only for a stated reason", errs(b), *why)


@prop("V11", [VA],
      "path-sensitive required conditions and per-iteration obligations over the outputs of value transfers",
      "validate_vt_transaction and validate_genesis_vt_transaction are analysed on all paths. Acceptance of a value transfer implies: weight within the limit, signatures checked over its own hash, inputs, every output non-zero (each iteration of the loop crosses the condition) and its fee computed. Acceptance of a genesis transfer implies no inputs, no signatures, outputs that are all non-zero, and the exact sum created. Each rejection has one of these reasons; neither aborts")
def v11(C):
    a = C.fnA(VA, "validate_vt_transaction", no_inline=keys(C, "validate_transaction_signature", "vt_transaction_fee", "hash", "weight", "versioned_hash"))
    ends = oks(a)
    T, OUT, W = "vt_tx.body", "vt_tx.body.outputs", "VTTransaction::weight(vt_tx)"
    PVR = "{Default::default() | protocol_version.Some.0}"
    TS = f"validations::validate_transaction_signature(vt_tx.signatures, {T}.inputs, VersionedHashable::versioned_hash(vt_tx, {PVR}), utxo_diff, signatures_to_verify)"
    FEE = "validations::vt_transaction_fee(vt_tx, utxo_diff, epoch, epoch_constants)"
    need(C, a, "transfer-weight", "the weight is within the limit", ends, fact("le", {W: 1, "max_vt_weight": -1}))
    need(C, a, "transfer-checks", "its signatures are checked over its own hash", ends, f"{TS} is Ok")
    need(C, a, "transfer-checks", "its fee is computed", ends, f"{FEE} is Ok")
    need(C, a, "transfer-checks", "it has inputs", ends, *a.empty_strs(f"{T}.inputs", False))
    E = f"elem({OUT}).value"
    colls = [OUT, f"enumerate({OUT})"]
    per_element(C, a, "transfer-outputs", "no output is zero", colls, ends, "each output has value", cut=edges(a, f"{E} ne 0", f"{E} gt 0", f"{E} ge 1"))
    for r in ends:
        C.ob("transfer-answer", "answers inputs, outputs and fee", r.s == f"Result::Ok{{0: tuple{{0: collect({T}.inputs), 1: collect({OUT}), 2: {FEE}.Ok.0}}}}", r.s[:300], a.where(r.pid))
    reasons(C, a, "transfer-reasons", "rejected only for a stated reason", errs(a), fact("gt", {W: 1, "max_vt_weight": -1}), f"{TS} is Err", f"{FEE} is Err", *a.empty_strs(f"{T}.inputs", True), f"{E} eq 0", f"{E} le 0", f"{E} lt 1")
    a = C.fnA(VA, "validate_genesis_vt_transaction", no_inline=keys(C, "transaction_outputs_sum", "hash"))
    ends = oks(a)
    SUM = f"transaction_factory::transaction_outputs_sum({OUT})"
    need(C, a, "genesis-transfer", "no inputs", ends, *a.empty_strs(f"{T}.inputs", True))
    need(C, a, "genesis-transfer", "no signatures", ends, *a.empty_strs("vt_tx.signatures", True))
    need(C, a, "genesis-transfer", "at least one output", ends, *a.empty_strs(OUT, False))
    per_element(C, a, "genesis-transfer", "no output is zero", colls, ends, "each output has value", cut=edges(a, f"{E} ne 0", f"{E} gt 0", f"{E} ge 1"))
    need(C, a, "genesis-transfer", "the sum does not overflow", ends, f"{SUM} is Ok")
    for r in ends:
        C.ob("genesis-transfer", "answers the outputs and their sum", r.s == f"Result::Ok{{0: tuple{{0: collect({OUT}), 1: {SUM}.Ok.0}}}}", r.s[:300], a.where(r.pid))
    reasons(C, a, "genesis-transfer", "rejected only for a stated reason", errs(a), *a.empty_strs(f"{T}.inputs", False), *a.empty_strs("vt_tx.signatures", False), *a.empty_strs(OUT, True), f"{E} eq 0", f"{E} le 0", f"{E} lt 1", f"{SUM} is Err")
    C.no_abort(a, "genesis-transfer", "an offered genesis transfer never aborts the node")


def split(a, terms):
    """two analyses: a quantity (linear form, never negative) is above zero, and is zero"""
    some = a.prune(fact_edges(a, fact("le", terms)) | fact_edges(a, fact("eq", terms)))
    none = a.prune(fact_edges(a, fact("gt", terms)) | fact_edges(a, fact("ne", terms)) | fact_edges(a, fact("ge", terms, -1)))
    return some, none


@prop("V12", [VA],
      "path-sensitive required conditions, per-iteration obligations over the outputs and polynomial value equations of an accepted tally, per protocol version",
      "validate_tally_transaction, create_expected_tally_transaction, run_tally and calculate_liars_and_errors_count_from_tally are analysed on all paths. The expected tally is computed from the request, the reveals and the committers the pool holds for the pointer of the transaction, in the tally stage only. Acceptance implies: the same result bytes, the same sets of out-of-consensus and error committers and as many outputs as expected; every output is the change of the request (last output, to its creator, the expected amount) or pays, once each, a revealer who was not dishonest the reward (or back the collateral of an error), or with no honest witness gives a committer back the collateral; no time lock after the second hard fork; and the sum of the outputs satisfies the value equation of the protocol version, compared as polynomials over the counts and prices. Each rejection has one of these reasons. What create_tally itself computes is the subject of another property")
def v12(C):
    OPQ = ("create_expected_tally_transaction", "calculate_tally_change", "calculate_witness_reward", "calculate_witness_reward_before_second_hard_fork", "data_request_has_too_many_witnesses", "wips_0009_0011_0012", "wip0023", "calculate_liars_and_errors_count_from_tally", "checked_total_value", "get_protocol_version_activation_epoch", "data_request_state_mutable", "data_request_state")
    a = C.fnA(VA, "validate_tally_transaction", no_inline=keys(C, *OPQ))
    REQ = re.compile(r"^(DataRequestPool::data_request_state(?:_mutable)?\(dr_pool, ta_tx\.dr_pointer\)) is Some$")
    R = r"DataRequestPool::data_request_state(?:_mutable)?\(dr_pool, ta_tx\.dr_pointer\)\.Some\.0"
    tm = calls_to(a, "data_request_has_too_many_witnesses")
    for c in tm:
        C.ob("tally-witnesses", "too many witnesses is judged for the request, the validators and the epoch of the request", bool(re.fullmatch(R + r"\.data_request", c.arg(0))) and bool(re.fullmatch(r"Option::Some\{0: " + R + r"\.epoch\}", c.arg(2))) and ("validator_count" in c.arg(1) or c.arg(1) == "1000"), str([x[-120:] for x in c.args]), c.where)
    C.ob("tally-witnesses", "the count given is the one used", any("validator_count" in c.arg(1) for c in tm), f"{len(tm)} calls", a.fn["span"])
    a.call({re.compile(r"(?:\w+::)*data_request_has_too_many_witnesses\(.*\)"): "TOOMANY"})
    cet = calls_to(a, "create_expected_tally_transaction")
    if not C.ob("tally-expected", "the expected tally is computed once", len(cet) == 1, f"{len(cet)} calls", a.fn["span"]):
        return
    want = ["ta_tx", "dr_pool", "consensus_constants.collateral_minimum", "active_wips", "TOOMANY", "protocol_version"]
    C.ob("tally-expected", "computed for this transaction, pool and network", [cet[0].arg(i) for i in range(6)] == want, str([cet[0].arg(i)[-100:] for i in range(6)]), cet[0].where)
    a.call({a.s(cet[0].value): "CET"})
    lc = [c for c in a.calls() if c.f["name"] == "calculate_liars_and_errors_count_from_tally"]
    C.ob("tally-expected", "liars and errors are counted in this transaction", len(lc) == 1 and lc[0].args == ["ta_tx"], str([c.args for c in lc]), a.fn["span"])
    if len(lc) != 1:
        return
    a.call({a.s(lc[0].value): "LIES"})
    ends = oks(a)
    T, X, S = "ta_tx", "CET.Ok.0.0", "CET.Ok.0.1"
    D = f"{S}.data_request"
    NC, NR, NO = f"len({S}.info.commits)", f"len({S}.info.reveals)", f"len({T}.out_of_consensus)"
    OUT = f"{T}.outputs"
    EL = f"elem({OUT})"
    need(C, a, "tally-request", "the request is known", ends, REQ)
    many = a.under(lambda s: s == "!TOOMANY")
    ACT = "witnet_data_structures::get_protocol_version_activation_epoch(ProtocolVersion::V2_0{})"
    past = {(i, l) for i, l, y, ss in many.edges() if any(re.fullmatch(rf"{R}\.epoch le {re.escape(ACT)}|{re.escape(ACT)} ge {R}\.epoch", s) for s in ss)}
    need(C, many, "tally-witnesses", "with too many witnesses the request itself must be in the block (since wit/2)", oks(many), past, "contains(data_requests_with_too_many_witnesses, ta_tx.dr_pointer)")
    need(C, a, "tally-expected", "the expected tally exists", ends, "CET is Ok")
    eq = lambda l, r: {f"{l} eq {r}", f"{r} eq {l}"}
    ne = lambda l, r: {f"{l} ne {r}", f"{r} ne {l}"}
    srt = lambda x: f"collect(Itertools::sorted({x}))"
    for w in ("out_of_consensus", "error_committers"):
        need(C, a, "tally-committers", f"{w} has exactly the expected members", ends, *eq(srt(f"{X}.{w}"), srt(f"{T}.{w}")))
    need(C, a, "tally-outputs", "as many outputs as expected", ends, *eq(f"len({OUT})", f"len({X}.outputs)"))
    need(C, a, "tally-result", "the result is the expected one", ends, *eq(f"{X}.tally", f"{T}.tally"))

    colls = [OUT, f"enumerate({OUT})"]
    ooc, err = (rf"contains\((?:{re.escape(srt(T + '.' + w))}|{re.escape(srt(X + '.' + w))}|{re.escape(T + '.' + w)}|{re.escape(X + '.' + w)}), {re.escape(EL)}\.pkh\)" for w in ("out_of_consensus", "error_committers"))
    IN_O, NOT_O, IN_E, NOT_E = (re.compile(f"^{n}{x}$") for x in (ooc, err) for n in ("", "!"))
    chg = [c for c in a.calls() if c.f["name"] == "calculate_tally_change"]
    CH = a.s(chg[0].value) if chg else "?"
    hs = {f"Sub({NC}, {NO})"}
    C.ob("tally-change", "the change is the expected one", len(chg) == 1 and chg[0].arg(0) == NC and chg[0].arg(1) == NR and chg[0].arg(2) in hs and chg[0].arg(3) == D, str(chg and chg[0].args), a.fn["span"])
    a.call({CH: "CHANGE"})
    fork, wip23 = "ActiveWips::wips_0009_0011_0012(active_wips)", "ActiveWips::wip0023(active_wips)"
    is_change = lambda b: edges(b, *eq(f"{EL}.value", "CHANGE"))
    for cl, contra in (("its own collateral", eq(f"{D}.collateral", "0") | {f"{D}.collateral lt 1", f"{D}.collateral le 0", f"0 ge {D}.collateral"}), ("the least collateral", ne(f"{D}.collateral", "0") | {f"{D}.collateral gt 0", f"{D}.collateral ge 1", f"0 lt {D}.collateral"})):
        k = a.under(lambda s: s in contra)
        COLL = f"{D}.collateral" if cl.startswith("its") else "consensus_constants.collateral_minimum"
        for fl, fc in (("after the second hard fork", lambda s: s == "!" + fork), ("before the second hard fork", lambda s: s == fork)):
            b0 = k.under(fc)
            if fl.startswith("after"):
                wr, wa = "calculate_witness_reward", [NC, "LIES.0", "LIES.1", f"{D}.witness_reward", COLL, wip23]
                hon, non = split(b0, {NC: 1, NO: -1})
            else:
                wr, wa = "calculate_witness_reward_before_second_hard_fork", [NC, NR, "LIES.0", "LIES.1", f"{D}.witness_reward", COLL]
                hon, non = split(b0, {NR: 1})
            cs = [c for c in b0.calls() if c.f["name"].startswith("calculate_witness_reward")]
            if not C.ob("tally-reward", f"{cl}, {fl}: the reward is the expected one", len(cs) == 1 and cs[0].f["name"] == wr and cs[0].args == wa, str([c.args for c in cs]), a.fn["span"]):
                continue
            RW, FEE = (b0.s(b0.v.projv(cs[0].value, (("f", i),))) for i in (0, 1))
            lab = f"{cl}, {fl}"
            for hl, b in (("", hon),) + ((("no honest witness", non),) if fl.startswith("after") else ()):
                en = oks(b)
                l2 = f"{lab}, {hl}" if hl else lab
                C.ob("tally-possible", l2, bool(en), "never accepted", a.fn["span"])
                ic = is_change(b)
                # what is not the change
                for cond, cut in (("last output", edges(b, f"idx({OUT}) eq Sub(len({OUT}), 1)", f"Sub(len({OUT}), 1) eq idx({OUT})", fact("eq", {f"idx({OUT})": 1, f"len({OUT})": -1}, 1))), ("output to the creator", edges(b, *eq(f"{EL}.pkh", f"{S}.pkh"))), ("output when there is change", edges(b, "CHANGE gt 0", "CHANGE ne 0", "CHANGE ge 1", "0 lt CHANGE", "0 ne CHANGE"))):
                    q = b.prune(cut)
                    C.ob("tally-change", f"{l2}: only the {cond} is taken for the change", bool(cut) and not is_change(q), "an output may be taken for the change without being it", a.fn["span"])
                if not hl:
                    member, pay = f"contains_key({S}.info.reveals, {EL}.pkh)", RW
                    per_element(C, b, "tally-paid", f"{l2}: only revealers are paid", colls, en, "revealer", cut=ic | edges(b, member))
                    per_element(C, b, "tally-paid", f"{l2}: no dishonest witness is paid", colls, en, "not dishonest", cut=ic | edges(b, NOT_O, IN_E))
                    per_element(C, b, "tally-paid", f"{l2}: an error out of consensus gets the collateral back", colls, en, "collateral", cut=ic | edges(b, NOT_O, NOT_E, *eq(f"{EL}.value", COLL)))
                    per_element(C, b, "tally-paid", f"{l2}: an honest witness gets the reward", colls, en, "reward", cut=ic | edges(b, IN_O, *eq(f"{EL}.value", RW)))
                else:
                    per_element(C, b, "tally-paid", f"{l2}: only committers are paid", colls, en, "committer", cut=ic | edges(b, f"contains_key({S}.info.commits, {EL}.pkh)"))
                    per_element(C, b, "tally-paid", f"{l2}: a committer gets the collateral back", colls, en, "collateral", cut=ic | edges(b, *eq(f"{EL}.value", COLL)))
                yes, no = fresh(b, f"{EL}.pkh")
                ins = insertions(b, f"{EL}.pkh")
                free = edges(b, re.compile(rf"^!contains\((?!collect|ta_tx|CET|data_requests).*, {re.escape(EL)}\.pkh\)$"))
                per_element(C, b, "tally-once", f"{l2}: nobody is paid twice", colls, en, "not paid before", cut=ic | yes | free)
                per_element(C, b, "tally-once", f"{l2}: who is paid is noted", colls, en, "noted", cut=ic, nodes=ins)
                if fl.startswith("after"):
                    per_element(C, b, "tally-timelock", f"{l2}: outputs are not time locked", colls, en, "no time lock", cut=edges(b, *eq(f"{EL}.time_lock", "0"), f"{EL}.time_lock lt 1"))
                for r in en:
                    C.ob("tally-answer", f"{l2}: answers the outputs and the remainder of the slashed collateral", r.s == f"Result::Ok{{0: tuple{{0: collect({OUT}), 1: {FEE}}}}}", r.s[-300:], b.where(r.pid))

            # the value equation
            def opaque(B, v):
                t = B.v.t(v)
                if not accum(B, v) or t[0] == "const":
                    return None
                st, ad = sum_forms(B, v)
                return "TOTAL" if not may_skip(B, v) and {x for o, x in ad} == {f"{EL}.value"} and {o for o, x in ad} <= {"Add", "checked_add"} and st <= {"0"} else None
            W, R_, F_, L, E = f"{D}.witnesses", f"{D}.witness_reward", f"{D}.commit_and_reveal_fee", "LIES.0", "LIES.1"
            for hl, h in zip(("some honest", "none honest"), split(b0, {NC: 1, NO: -1})):
                for il, b in zip(("no outputs", "outputs"), iterations(h, colls)):
                    b.opaque = opaque
                    TOT = [(1, "TOTAL")] if il == "outputs" else []
                    for v in ("V1_8", "V2_0", "V2_1"):
                        q = b.under(ver((v,), "protocol_version"))
                        l3 = f"{lab}, {v}, {hl}, {il}"
                        if v > "V2":
                            want = pol((-1, NC, F_), (1, NR, F_), (-1, L, R_), (-1, E, R_), *TOT) if hl.startswith("some") else pol(*TOT, (-1, W, R_), (-2, W, F_), (1, NC, F_), (1, NR, F_))
                            need(C, q, "tally-value", l3, oks(q), poly_edges(q, "eq", want), what="sum of the outputs = what is due")
                            continue
                        TV = f"DataRequestOutput::checked_total_value({D}).Ok.0"
                        need(C, q, "tally-value", f"{l3}: the value of the request does not overflow", oks(q), TV[:-5] + " is Ok")
                        base = [(1, NC, F_), (1, NR, F_), (1, FEE), *TOT, (-1, TV)]
                        com, nocom = split(q, {NC: 1})
                        for wl, contra2 in (("WIP-0023", "!" + wip23), ("no WIP-0023", wip23)):
                            z = com.under(lambda s: s == contra2)
                            extra = [(-1, COLL, W)] + ([(1, COLL, L)] if wl == "WIP-0023" and hl.startswith("some") else [])
                            need(C, z, "tally-value", f"{l3}, {wl}", oks(z), poly_edges(z, "eq", pol(*base, *extra)), what="fees, remainder and outputs = value of the request + collateral")
                        if hl.startswith("none"):
                            need(C, nocom, "tally-value", f"{l3}, no commits", oks(nocom), poly_edges(nocom, "eq", pol(*base)), what="fees, remainder and outputs = value of the request")
    why = ["CET is Err", *ne(srt(f"{X}.out_of_consensus"), srt(f"{T}.out_of_consensus")), *ne(srt(f"{X}.error_committers"), srt(f"{T}.error_committers")), *ne(f"len({OUT})", f"len({X}.outputs)"), *ne(f"{X}.tally", f"{T}.tally"), *ne(f"{EL}.value", "CHANGE"),
           f"!contains_key({S}.info.reveals, {EL}.pkh)", f"!contains_key({S}.info.commits, {EL}.pkh)", IN_O, re.compile(rf"^{re.escape(EL)}\.value ne |^.* ne {re.escape(EL)}\.value$"), re.compile(rf"^contains\((?!ta_tx|CET|data_requests).*, {re.escape(EL)}\.pkh\)$"), *ne(f"{EL}.time_lock", "0"), f"{EL}.time_lock gt 0", "!contains(data_requests_with_too_many_witnesses, ta_tx.dr_pointer)", re.compile(R + r" is None|^DataRequestPool::data_request_state(?:_mutable)?\(dr_pool, ta_tx\.dr_pointer\) is None$"), f"DataRequestOutput::checked_total_value({D}) is Err", re.compile(r"elem\(ta_tx\.outputs\)\.value.* ne |^.* ne .*elem\(ta_tx\.outputs\)\.value|^(?=.*(?:commit_and_reveal_fee|checked_total_value)).* ne ")]
    reasons(C, a, "tally-reasons", "rejected only for a stated reason", errs(a), *why)

    b = C.fnA(VA, "calculate_liars_and_errors_count_from_tally")
    OC, EC = "ta_tx.out_of_consensus", "ta_tx.error_committers"
    OC, EC = (x.replace("ta_tx", b.fn["params"][0] if isinstance(b.fn.get("params"), list) and isinstance(b.fn["params"][0], str) else "tally_tx") for x in (OC, EC))
    isin = f"contains({EC}, elem({OC}))"
    for label, contra, up, zero in (("a committer without an error is a liar", isin, 0, 1), ("a committer with an error is an error", "!" + isin, 1, 0)):
        q = b.under(lambda s: s == contra)
        got = {(i, x) for r in q.rets() for w in alts(q, r.value) for i in (0, 1) for x in alts(q, q.v.projv(w, (("f", i),)))}

        def counts(x):
            t = q.v.t(x)
            if t[0] == "bin" and t[1] == "Sub" and q.s(t[2]) == f"len({OC})":
                return {"all": {"none"}, "none": {"all"}}.get(next(iter(counts(t[3]))), {"?"})
            st, ad = sum_forms(q, x)
            return {"all" if ad else "none"} if st <= {"0"} and ad <= {("Add", "1")} else {"?"}
        up_, zero_ = (set().union(*[counts(x) for i, x in got if i == k] or [{"?"}]) for k in (up, zero))
        C.ob("tally-count", label, "all" in up_ and up_ <= {"all", "none"} and zero_ == {"none"}, str([(i, q.s(x)[:60]) for i, x in got]), b.fn["span"])
    per_element(C, b, "tally-count", "every committer out of consensus is counted", [OC], b.rets(), "each one is judged", cut=edges(b, isin, "!" + isin))

    c = C.fnA(VA, "create_expected_tally_transaction", no_inline=keys(C, "run_tally_panic_safe", "create_tally", "data_request_state", "get_reveals", "tally_bytes_on_encode_error"))
    PT = f"DataRequestPool::data_request_state(dr_pool, {T}.dr_pointer)"
    P = f"{PT}.Some.0"
    GR = f"DataRequestPool::get_reveals(dr_pool, {T}.dr_pointer, active_wips).Some.0"
    COMM = {f"collect(keys({P}.info.commits))"}
    en = oks(c)
    need(C, c, "expected-stage", "only in the tally stage", en, *eq(f"{P}.stage", "DataRequestStage::TALLY{}"), f"{P}.stage is TALLY")
    need(C, c, "expected-stage", "only for a known request", en, f"{PT} is Some")
    rt = calls_to(c, "run_tally_panic_safe")
    pct = {f"Div({P}.data_request.min_consensus_percentage, 100f64)"}
    for x in rt:
        g = [x.arg(i) for i in range(6)]
        C.ob("expected-report", "the reveals are tallied by the script, consensus and committers of the request", g[0] == GR and g[1] == f"{P}.data_request.data_request.tally" and g[2] in pct and g[3] in {f"len({m})" for m in COMM} | {f"len({P}.info.commits)"} and g[4:] == ["active_wips", "too_many_witnesses"], str([y[-90:] for y in g]), x.where)
    ct = calls_to(c, "create_tally")
    for x in ct:
        g = [x.arg(i) for i in range(10)]
        C.ob("expected-tally", "built from the request, the report, the revealers and the committers", g[0] == f"{T}.dr_pointer" and g[1] == f"{P}.data_request" and g[2] == f"{P}.pkh" and {g[3]} == {c.s(y.value) for y in rt} and g[5] in COMM and g[6] == "collateral_minimum" and g[8:] == ["active_wips", "protocol_version"], str([y[-90:] for y in g]), x.where)
        rv = [y for y in c.calls() if y.f["name"] == "collect_push" and y.arg(1) in (f"elem({GR}).body.pkh",)]
        if g[4] not in (f"collect(map({GR}, body.pkh))",):
            C.ob("expected-revealers", "the revealers are collected", g[4] == "iter::collect_new()", g[4][:200], x.where)
            per_element(C, c, "expected-revealers", "each revealer is listed", [GR], [x.pid], "pushed", nodes=rv)
    C.ob("expected-tally", "computed once", bool(rt) and bool(ct), f"{len(rt)} {len(ct)}", c.fn["span"])
    for r in en:
        C.ob("expected-answer", "answers that tally and the request", r.s == f"Result::Ok{{0: tuple{{0: {c.s(ct[0].value) if ct else '?'}, 1: {P}}}}}", r.s[-200:], c.where(r.pid))

    d = C.fnA(VA, "run_tally", no_inline=keys(C, "evaluate_tally_precondition_clause", "construct_report_from_clause_result", "evaluate_tally_postcondition_clause", "wips_0009_0011_0012", "wip0018", "remove_message_from_error_unhandled_intercept"))
    PRE = "conditions::evaluate_tally_precondition_clause(results, non_error_min, commits_count, active_wips, too_many_witnesses)"
    rep = calls_to(d, "construct_report_from_clause_result", PRE, "tally", "len(results)", "active_wips")
    C.must_pass(d, "result-steps", "the clauses are evaluated on all reveals and turned into a report", rep, [r.pid for r in d.rets()], "report built on every path")
    post = calls_to(d, "evaluate_tally_postcondition_clause", None, "non_error_min", "commits_count")
    msg = calls_to(d, "remove_message_from_error_unhandled_intercept")
    w9, w18 = "ActiveWips::wips_0009_0011_0012(active_wips)", "ActiveWips::wip0018(active_wips)"
    for label, cs, w in (("the consensus is checked after the tally since WIP-0011", post, w9), ("messages of intercepted errors are removed since WIP-0018", msg, w18)):
        for on in (True, False):
            q = d.under(lambda s: s == ("!" if on else "") + w)
            name = cs[0].f["name"] if cs else "?"
            there = [x for x in q.calls() if x.f["name"] == name]
            if on:
                C.must_pass(q, "result-steps", label, there, [r.pid for r in q.rets()], "on every path")
            else:
                C.ob("result-steps", f"{label}: not before", not there, "called before the upgrade", d.fn["span"])
