"""C15: metrics collection is transparent, exact and session-isolated.

See dst.sessions for the simulated client and dst.nests for the kernels and the
model. This world judges the results, the operation counts and the iteration
counts of every session, and at the end repeats every session it saw as the
first thing a new process does, and without collection.
"""
from ..nests import gen_prog
from ..sessions import SessionWorld

RUNS = {"quick": 16000, "thorough": 200000}
CHUNK = 40
RULE = ("a run is nontrivial when at least one session was ended and judged completely; "
        "distinct runs are counted by the digest of their event log")
STATE_MEASURE = "distinct (kernel, loop bodies done, traces, iteration stamp, flush threshold, alive/killed/broken) tuples after a step"
REAL = ["fibertree (all of it, imported from /repo)", "files in a scratch directory"]
STUB = ["builtins.open, io.open, os.remove, os.rename (counting and fault injection, then the real call)"]
ASSUMPTIONS = [
    "kernels are loop nests over the co-iteration operators and payload operators",
    "positions in uncompressed fibers may be the coordinate, the index among the stored elements, or the ordinal; "
    "positions of look-ups that found nothing are not judged",
    "positions in lazy fibers are ordinals of the elements they deliver",
]


class World(SessionWorld):
    JUDGE = "C15"
