"""C16: one sorted, correctly addressed row per traced event.

See dst.sessions for the simulated client and dst.nests for the kernels and the
model. This world judges the rows of every trace, on disk and in memory, when a
session ends and whenever the kernel is suspended.
"""
from ..nests import gen_prog
from ..sessions import SessionWorld

RUNS = {"quick": 16000, "thorough": 200000}
CHUNK = 40
RULE = ("a run is nontrivial when at least one session was ended and judged completely; "
        "distinct runs are counted by the digest of their event log")
STATE_MEASURE = "distinct (kernel, loop bodies done, traces, iteration stamp, flush threshold, alive/killed/broken) tuples after a step"
REAL = ["fibertree (all of it, imported from /repo)", "files in a scratch directory"]
STUB = ["builtins.open, io.open, os.remove, os.rename (counting and fault injection, then the real call)"]
ASSUMPTIONS = [
    "kernels are one loop nest per session, over the co-iteration operators and payload operators",
    "positions in uncompressed fibers may be the coordinate, the index among the stored elements, or the ordinal; "
    "positions of look-ups that found nothing are not judged",
    "positions in lazy fibers are ordinals of the elements they deliver",
]


class World(SessionWorld):
    JUDGE = "C16"
