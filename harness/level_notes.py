_G = (" Random search over the generated domain: it shows the presence of "
      "violations, not their absence. Trusts the reference model written in "
      "the check, Python's float arithmetic (relative tolerances around 1e-9) "
      "and Hypothesis.")


def _n(oracle, held):
    return oracle, held + _G


NOTES = {
    'C01': _n("a per-dollar compound-growth reference model over multi-year "
              "histories",
              "Every generated account history agreed with the reference."),
    'C02': _n("a shadow log of every recorded value, over stateful histories "
              "of reads, writes, inputs and yearly advances",
              "Every generated history agreed with the shadow log."),
    'C03': _n("apply-and-measure oracles: proposed flows are applied and the "
              "resulting balance or total is compared with the target",
              "Every proposed set of flows landed on its target or limit."),
    'C04': _n("reference timing/weight models and a running-total oracle with "
              "exact rational arithmetic",
              "Every generated timing agreed with the reference."),
    'C05': _n("a reference ledger of each shared limit over generated "
              "operation sequences and permutations of them",
              "Every generated sequence agreed with the reference ledger."),
    'C06': _n("an independent model of the statutory room rules over "
              "multi-year histories",
              "Every generated history agreed with the model."),
    'C07': _n("an independent model of conversion, minimum withdrawals and "
              "withholding",
              "Every generated history agreed with the model."),
    'C08': _n("an adjusted-cost-base reference model and insertion-order "
              "metamorphic relations",
              "Every generated history agreed with the model."),
    'C09': _n("a bracket-by-bracket reference model and metamorphic relations",
              "Every generated schedule/query agreed with the reference."),
    'C10': _n("a count-once reference sum and permutation/repetition "
              "metamorphic relations",
              "Every generated household agreed with the reference."),
    'C11': _n("an independent federal + provincial reference with spousal and "
              "pension credits",
              "Every generated household agreed with the reference."),
    'C12': _n("a product-of-rates reference and path/inverse metamorphic "
              "relations",
              "Every generated scenario agreed with the reference."),
    'C13': _n("calendar and earnings reference models and a stateful model of "
              "marriages and account ownership",
              "Every generated life history agreed with the models."),
    'C14': _n("a double-entry ledger model over stateful sequences of "
              "cashflows, re-runs and undos",
              "Every generated sequence balanced and matched the model."),
    'C15': _n("cash-conservation invariants recomputed from the recorded "
              "flows of simulated multi-year forecasts",
              "Every simulated year conserved cash."),
    'C16': _n("a brute-force/greedy reference planner and limit invariants",
              "Every generated plan satisfied the invariants."),
    'C17': _n("a greedy reference for repayment order and payment-limit "
              "invariants over multi-year debts",
              "Every generated plan agreed with the reference."),
    'C18': _n("reference glide-path formulas and metamorphic relations over "
              "ages",
              "Every generated allocation agreed with the reference."),
    'C19': _n("reference formulas for each strategy and permutation and "
              "purity relations",
              "Every generated call agreed with the reference."),
    'C20': _n("round-trip and model-of-a-mapping oracles over generated JSON "
              "values and operation sequences",
              "Every generated value and sequence round-tripped."),
    'C21': _n("a differential oracle: the same generated computation in float "
              "and Decimal arithmetic, interleaved",
              "Every generated computation agreed in both modes."),
    'C22': _n("repeat-run and permutation differential oracles and deep "
              "before/after snapshots of the inputs",
              "Every generated run was repeatable and left inputs alone."),
}
