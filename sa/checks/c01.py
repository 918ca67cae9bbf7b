"""Effect analysis (may-mutate / may-alias, interprocedural to a fixpoint) of every
public function of the analysis modules: one obligation per parameter, which is
discharged when no path of the function or of its resolved callees can write to
an object reachable from that parameter."""
from .. import mutcheck


def run(ctx):
    ctx.rule("mutates", "no public analysis function may write to an object reachable from an argument")
    ctx.assumptions = [
        "numpy/scipy functions behave as in the model in sa/effects.py (copy, view or in-place)",
        "methods of values of unknown type are resolved by name within the package (<= 14 candidates)",
    ]
    mutcheck.check_args(ctx, "data", "mutates")
