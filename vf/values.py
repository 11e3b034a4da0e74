"""Numerical values (exact modulo P) of symbolic expressions: every index that appears in a
tensor is summed, an index that appears only in operators is fixed.  A string of operators
becomes a polynomial in the modes; fermionic operators anticommute, bosonic ones commute."""
from itertools import permutations
import numpy as np

from vf.fock import P, antisymmetrize, contract_all, frac_mod, perm_sign, rng

I64 = np.int64


class Values:
    def __init__(self, dims, seed, sym="anti", fields=None):
        self.dims, self.seed, self.sym = list(dims), seed, sym
        self.fields = fields or ["fermion"] * len(dims)
        self._t = {}

    def tensor(self, label, up, lo):
        key = (label, up, lo)
        if key in self._t:
            return self._t[key]
        su, sl = tuple(sorted(up)), tuple(sorted(lo))
        if self.sym != "none" and (su, sl) != (up, lo):
            base = self.tensor(label, su, sl)
            pu = sorted(range(len(up)), key=lambda i: (up[i], i))
            pl = sorted(range(len(lo)), key=lambda i: (lo[i], i))
            order = [0] * (len(up) + len(lo))
            for k, i in enumerate(pu):
                order[i] = k
            for k, i in enumerate(pl):
                order[len(up) + i] = len(up) + k
            sg = perm_sign(pu) * perm_sign(pl) if self.sym == "anti" else 1
            arr = np.transpose(base, order) * sg % P
        else:
            dims = [self.dims[s] for s in up + lo]
            arr = rng(self.seed, label, up, lo, tuple(self.dims)).integers(1, P, size=dims, dtype=I64)
            if self.sym != "none":
                pos = 0
                for grp in (up, lo):
                    i = 0
                    while i < len(grp):
                        j = i
                        while j < len(grp) and grp[j] == grp[i]:
                            j += 1
                        axes = list(range(pos + i, pos + j))
                        arr = antisymmetrize(arr, axes) if self.sym == "anti" else symmetrize(arr, axes)
                        i = j
                    pos += len(grp)
        self._t[key] = arr
        return arr

    def term(self, tensors, ops, value, out, delta=None):
        """out[normal string] += value * ...; delta: label of the Kronecker delta"""
        fixed = {}
        in_tensors = set(i for t in tensors for i in tuple(t[1]) + tuple(t[2]))
        op_ix = list(dict.fromkeys(o[1] for o in ops))
        for i in op_ix:
            if i not in in_tensors:
                fixed[i] = i[1] % self.dims[i[0]]
        factors = []
        for label, up, lo in tensors:
            if label == delta:
                a = np.eye(self.dims[up[0][0]], dtype=I64)
            else:
                a = self.tensor(label, tuple(i[0] for i in up), tuple(i[0] for i in lo))
            factors.append((a, list(up) + list(lo)))
        keep = [i for i in op_ix if i in in_tensors]
        arr, axes = contract_all(factors, keep)
        arr = arr * value % P
        for pos in zip(*np.nonzero(arr)) if arr.ndim else ([()] if int(arr) else []):
            v = int(arr[pos]) if arr.ndim else int(arr)
            at = dict(zip(axes, (int(p) for p in pos)))
            at.update(fixed)
            k, s = self.string([(o[0], o[1][0], at[o[1]]) for o in ops])
            if s:
                out[k] = (out.get(k, 0) + s * v) % P

    def string(self, ops):
        """sorted (anti)commuting string and sign"""
        ferm = [self.fields[s] == "fermion" for _, s, _ in ops]
        order = sorted(range(len(ops)), key=lambda i: (not ops[i][0], ops[i][1], ops[i][2], i))
        sign = 1
        for a in range(len(order)):
            for b in range(a):
                if order[b] > order[a] and ferm[order[b]] and ferm[order[a]]:
                    sign = -sign
        res = [ops[i] for i in order]
        for a, b in zip(range(len(res)), range(1, len(res))):
            if res[a] == res[b] and ferm[order[a]]:
                return (), 0
        return tuple(res), sign

    def expression(self, terms, delta=None):
        out = {}
        for (tensors, ops, _), c in terms:
            self.term(tensors, ops, frac_mod(c), out, delta)
        return {k: v for k, v in out.items() if v}


def symmetrize(arr, axes):
    if len(axes) < 2:
        return arr
    out = np.zeros_like(arr)
    for p in permutations(range(len(axes))):
        order = list(range(arr.ndim))
        for k, i in enumerate(p):
            order[axes[k]] = axes[i]
        out = out + np.transpose(arr, order)
    return out % P
