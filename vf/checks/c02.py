"""C02: generalized Wick theorem (general spaces, cumulants) against Fock-space matrices."""
import os

import hypothesis.strategies as st

from vf.wick import many_cases, run_many, run_wick, wick_cases, wide_cumulants

CAMPAIGNS = [
    dict(name="fock", n=dict(quick=5000, thorough=60000)),
    dict(name="large", n=dict(quick=1400, thorough=20000)),
    dict(name="many equal legs", n=dict(quick=1500, thorough=20000)),
]
LARGE = os.environ.get("VF_CAMPAIGN") == "1"
MANY = os.environ.get("VF_CAMPAIGN") == "2"
RULE = (
    "a case is a product of 1-6 random fermionic operators over 1-5 spaces of which at least one is general, a "
    "cumulant cutoff, a rank window and a prefactor (a quarter of the second campaign: a cumulant of rank 3-5 spread over "
    "as many operators as it has creation legs); non-trivial: the result contains contracted terms and the "
    "expected operator is not zero; third campaign: two operators with up to 90 equal legs per "
    "space against the closed form of the coefficients; non-trivial: some legs are contracted"
)
ASSUMPTIONS = [
    "tensors and cumulants are antisymmetric with random values modulo 1000003; cumulants conserve the particle "
    "number of each general space",
    "at most 8 operator legs and 7 modes, in the second campaign 10 legs and 8 modes (thorough: 10 and 8, 12 and 8)",
]


def large(q):
    return wick_cases(["general", "general", "general", "occupied", "unoccupied"], 10 if q else 12, 8, nops_range=(2, 4), general=True, size_cap=60000, max_op_legs=8)


def strategy(tier):
    q = tier == "quick"
    if MANY:
        return many_cases(["general", "general", "occupied", "unoccupied"])
    if LARGE:
        return st.integers(0, 3).flatmap(lambda k: large(q) if k else wide_cumulants())
    return wick_cases(["general", "general", "occupied", "unoccupied"], 8 if q else 10, 7 if q else 8, general=True, size_cap=60000)


run_case = run_many if MANY else run_wick
