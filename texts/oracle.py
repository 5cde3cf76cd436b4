"""The oracle: scripts, sources, reducers, filters, tally."""
from .chain import p as q

P = []


def p(*a):
    q(*a)
    from . import chain
    P.append(chain.P.pop())


OPS = "rad/src/operators/"
p("A01", "No script, argument, source or reveal can abort the oracle",
  "Running any retrieval, aggregation or tally script, with any arguments, on any response of a source or any revealed value, ends in a value or in an error: none of the operators, filters, reducers, conversions and conditions of the virtual machine can abort the node that runs it, whether by an index, a slice, an arithmetic operation, a division or a value that is not there.",
  ["inputs"], "all scripts and arguments, all responses of all sources and all revealed bytes",
  "Scripts, responses and reveals come from strangers; the tests sample each operator with a few well-formed inputs and a few of its refusals.",
  ["rad/src/operators/mod.rs", "rad/src/reducers/mod.rs", "rad/src/filters/mod.rs", "rad/src/conditions.rs", "rad/src/types/mod.rs"],
  [("operate and the operators", OPS + "mod.rs"), ("reduce, filter", "rad/src/reducers/mod.rs"), ("RadonTypes conversions", "rad/src/types/mod.rs"), ("evaluate_tally_precondition_clause", "rad/src/conditions.rs")])
p("A02", "Reducers and filters compute what they are named for",
  "The mean is the sum of all items over their number, rounded for integers where asked; the standard deviation the square root of the mean squared distance from it; the mode the one item that appears most often, and an error if there are several; the median the middle of the sorted numbers or the mean of the two middles; the hash of a concatenation the SHA-256 of every item cut or zero-padded to 32 bytes; on arrays of arrays they work column by column. The deviation filter keeps exactly the items within mean ± sigmas × deviation, bounds included, the mode filter exactly those equal to the mode; in a tally every item not kept marks its witness a liar, and who was found a liar stays one. Reducers and filters refuse items of different types, and those introduced by an upgrade work only once it is active.",
  ["inputs"], "all arrays of values and all filter arguments, in every stage and under every set of active upgrades",
  "Tests use arrays of up to seven items of one size and hardly combine filters with marks.",
  ["rad/src/reducers/mod.rs", "rad/src/filters/mod.rs", "data_structures/src/radon_report.rs"],
  [("mean, standard, mode, median, hash_concatenate", "rad/src/reducers/mod.rs"), ("standard_filter, mode_filter", "rad/src/filters/mod.rs"), ("TallyMetaData::update_liars", "data_structures/src/radon_report.rs")])

p("A03", "A tally's outcome follows from reveals, commits and the minimum consensus",
  "A request that too many witnesses were asked for, that nobody committed to or that nobody revealed for ends in that error, in this order. Otherwise every reveal counts once for its type, the share of the most frequent type is taken of all commits, and below the minimum consensus the outcome is insufficient consensus and nothing else; a tie of types is an error; if errors are most frequent, the most common error is the outcome, provided it has the minimum consensus itself and nobody is marked a liar; if a type of values is, exactly the reveals of that type are tallied, the others are marked as liars, and errors are flagged as errors. After the tally, the result stands only if it is an error or if more than the minimum consensus of the commits belong to witnesses who are not marked as liars; otherwise, and whenever the clauses or the script fail, everybody who revealed is marked both as liar and as error.",
  ["inputs"], "all lists of reveals, numbers of commits, minimum consensus percentages and sets of active upgrades",
  "Who is paid and who is punished hangs on these clauses; the tests go through a few lists of three to seven reveals.",
  ["rad/src/conditions.rs"],
  [("evaluate_tally_precondition_clause", "rad/src/conditions.rs"), ("evaluate_tally_postcondition_clause", "rad/src/conditions.rs"), ("construct_report_from_clause_result", "rad/src/conditions.rs"), ("Counter::increment", "rad/src/conditions.rs")])
