"""C01: contraction of products of operators against Fock-space matrices, single reference."""
import os

from vf.wick import many_cases, run_many, run_wick, wick_cases

CAMPAIGNS = [
    dict(name="fock", n=dict(quick=8000, thorough=120000)),
    dict(name="large", n=dict(quick=2400, thorough=20000)),
    dict(name="many equal legs", n=dict(quick=1500, thorough=20000)),
]
LARGE = os.environ.get("VF_CAMPAIGN") == "1"
MANY = os.environ.get("VF_CAMPAIGN") == "2"
RULE = (
    "a case is a product of 1-6 random fermionic operators over 1-5 occupied/unoccupied spaces, a rank window "
    "and a prefactor; non-trivial: the result contains contracted terms and the expected operator is not zero; "
    "third campaign: two operators with up to 90 equal legs per "
    "space against the closed form of the coefficients; non-trivial: some legs are contracted"
)
ASSUMPTIONS = [
    "tensors are antisymmetric in the indices of each space, with random values modulo 1000003",
    "at most 10 operator legs and 8 modes, in the second campaign 14 legs and 9 modes (thorough: 14 and 9, 16 and 10)",
]


def strategy(tier):
    q = tier == "quick"
    if MANY:
        return many_cases(["occupied", "unoccupied"])
    if LARGE:
        return wick_cases(["occupied", "unoccupied"], 14 if q else 16, 9, nops_range=(2, 4), max_op_legs=10)
    return wick_cases(["occupied", "unoccupied"], 10 if q else 14, 8 if q else 9)


run_case = run_many if MANY else run_wick
