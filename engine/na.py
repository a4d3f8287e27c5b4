"""Properties this family of technique does not decide here, with the reason."""
PRG = "programs/mango-v4/src/"
PROPS = [
    dict(id="X02", title="Deposits, borrows and vault balances stay consistent over any history",
         statement="After any sequence of instructions the tokens held in a bank's vaults cover all deposits minus borrows and uncollected fees.",
         q=(["histories"], "Every sequence of instructions, prices and times."),
         files=[PRG + "state/bank.rs"], mechanism=[("index accounting", "state/bank.rs")],
         reason="A sum over an unbounded set of accounts with rounding at every step; needs a numeric inductive proof, not a source-level analysis. The per-step bookkeeping is claimed separately."),
    dict(id="X03", title="Order trees keep their shape and the best order at the front",
         statement="After any sequence of insertions and removals every order tree is a valid search tree with correct counts and expiry hints, and iteration yields orders from best to worst.",
         q=(["histories"], "Every sequence of insertions, removals and expiries."),
         files=[PRG + "state/orderbook/ordertree.rs"], mechanism=[("crit-bit tree", "state/orderbook/ordertree.rs")],
         reason="A heap-shape invariant of an index-linked tree over bit-prefix keys; shape analysis for this is out of reach of the static tools available, and model checking or fuzzing would be another family."),
    dict(id="X04", title="Fixed-point arithmetic keeps enough precision",
         statement="Rounding of interest indexes, prices and balances never lets a user extract more than a dust amount.",
         q=(["inputs", "histories"], "Every sequence of amounts and index updates."),
         files=[PRG + "state/bank.rs"], mechanism=[("rounding", "state/bank.rs")],
         reason="A quantitative error bound on runtime values; rounding direction at the withdraw and deposit sites is the only part visible in the source."),
    dict(id="X05", title="Stable price follows the oracle within its configured speed",
         statement="The smoothed price moves towards the oracle price by no more than the configured rate for any sequence of update times and prices.",
         q=(["inputs", "histories"], "Every sequence of update times and oracle prices."),
         files=[PRG + "state/stable_price.rs"], mechanism=[("delay-EMA model", "state/stable_price.rs")],
         reason="A bound on floating-point recurrences over runtime quantities."),
    dict(id="X06", title="Off-chain bots eventually liquidate every unhealthy account",
         statement="The liquidator, settler and keeper services eventually act on every account that needs action.",
         q=(["schedules", "fault_sequences"], "Every network schedule and failure."),
         files=["bin/liquidator/src/main.rs"], mechanism=[("service loops", "bin/")],
         reason="A liveness property of asynchronous services against external RPC nodes; no static argument in reach bounds it."),
]
