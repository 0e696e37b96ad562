"""C16: a seed makes every sampler and analyser reproducible.

Results are a function of the arguments and of the random draws; each draw is shown to come from the generator made
from the given seed (or NumPy's global generator after the call itself, or its caller, seeded it), and no module keeps
anything between calls."""
from .ghost import *

META = {}


class Both(Seeded):
    pass


VERIFIER = Both
SKIP = ("estimators", "sign inv", "standardisation", "slices partition", "find_smallest", "separate", "create_task", "Si_list", "generate_contrast", "extend_bounds")


def with_generator(fn):
    def go(v):
        v.generator = True
        fn(v)

    return go


CONTRACTS = borrow(["C03", "C04", "C05", "C07", "C08", "C10", "C11", "C12", "C13", "C14", "C22", "C24", "C25"], SKIP)
CONTRACTS += [(n.replace(": ", ": generator, ", 1), with_generator(fn)) for n, fn in borrow(["C03", "C07", "C08", "C11", "C13", "C14"], SKIP) if ".sample" in n or " sample" in n]
