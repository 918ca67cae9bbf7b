"""The effect analysis of C01 applied to loading, saving, plotting and utility
functions: option dictionaries, lists, fields and arrays handed in by the caller
are not written to (attribute assignments on plotting library objects are the
purpose of the plot modules and are not counted there)."""
from .. import mutcheck


def run(ctx):
    ctx.rule("mutates", "no public I/O, plotting or utility function may write to an object "
             "reachable from an argument")
    ctx.assumptions = ["third party plotting and I/O libraries do not write to what they are given"]
    mutcheck.check_args(ctx, "io", "mutates")
