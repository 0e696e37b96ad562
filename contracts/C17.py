"""C17: sampling and analysis leave the caller's data untouched."""
from .ghost import *

META = {}
VERIFIER = Frame
CONTRACTS = borrow(["C01", "C02", "C03", "C04", "C05", "C07", "C08", "C10", "C11", "C12", "C13", "C14", "C15", "C22", "C24", "C25"], skip=("find_smallest", "estimators", "sign inv", "standardisation", "slices partition", "single group refused"))
