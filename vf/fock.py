"""A small reference model of second quantization, exact modulo the prime P.

An operator on N fermionic modes is kept as the array of its coefficients over
normal-ordered (quasiparticle) strings

    coefs[C, A]  multiplies  { c_{m1} c_{m2} ...  d_{n1} d_{n2} ... }

with the quasiparticle creators c_m (m in the bit mask C, ascending) followed by the
quasiparticle annihilators d_n (n in A, ascending).  For an occupied mode the
quasiparticle creator is the (bare) annihilation operator; for unoccupied and general
modes it is the bare creation operator.  Products are taken through the matrices in the
2^N-dimensional Fock space built on the quasiparticle vacuum, so the model knows nothing
of contractions.  For general spaces {...} is normal ordering (Mukherjee-Kutzelnigg)
with respect to a state given by its cumulants; the reduced density matrices are the
Grassmann exponential of the cumulants and  string = sum_sub +- <sub> {rest}.
"""
from functools import lru_cache
from itertools import permutations, product, combinations
import hashlib
import numpy as np

P = 1000003
I64 = np.int64


def inv(a):
    return pow(int(a) % P, P - 2, P)


def frac_mod(f):
    return int(f.numerator) % P * inv(f.denominator) % P


def rng(seed, *key):
    h = hashlib.sha256(repr((seed,) + key).encode()).digest()
    return np.random.Generator(np.random.PCG64(int.from_bytes(h[:16], "big")))


@lru_cache(None)
def popcounts(n):
    return np.array([bin(i).count("1") for i in range(1 << n)], dtype=I64)


@lru_cache(None)
def above_sign(N):
    """sgn[m][S] = (-1)^(number of modes > m in S)"""
    pc = popcounts(N)
    S = np.arange(1 << N)
    return [1 - 2 * (pc[(S >> (m + 1))] & 1) for m in range(N)]


@lru_cache(None)
def rev_sign(N):
    n = popcounts(N)
    return 1 - 2 * ((n * (n - 1) // 2) & 1)


def to_matrix(coefs, N):
    """Normal-ordered coefficients -> matrix elements <S|O|T>."""
    M = coefs * rev_sign(N)[None, :] % P
    S = np.arange(1 << N)
    for m in range(N):
        has = S[(S >> m) & 1 == 1]
        rest = has ^ (1 << m)
        s = above_sign(N)[m][has]
        M[np.ix_(has, has)] += (s[:, None] * s[None, :]) * M[np.ix_(rest, rest)]
        M %= P
    return M


def from_matrix(M, N):
    M = M.copy()
    S = np.arange(1 << N)
    for m in reversed(range(N)):
        has = S[(S >> m) & 1 == 1]
        rest = has ^ (1 << m)
        s = above_sign(N)[m][has]
        M[np.ix_(has, has)] -= (s[:, None] * s[None, :]) * M[np.ix_(rest, rest)]
        M %= P
    return M * rev_sign(N)[None, :] % P


def matmul(A, B):
    """Exact product modulo P through float64 BLAS (split to stay below 2^53)."""
    A = A % P
    B = (B % P).astype(np.float64)
    hi = (A >> 10).astype(np.float64)
    lo = (A & 1023).astype(np.float64)
    h = np.rint(hi @ B).astype(I64) % P
    l = np.rint(lo @ B).astype(I64) % P
    return (h * 1024 + l) % P


class Model:
    """spaces: list of (type, dim); modes are numbered space by space."""

    def __init__(self, types, dims, seed=0, max_cumulant=0):
        self.types, self.dims = list(types), list(dims)
        self.off = [0]
        for d in dims:
            self.off.append(self.off[-1] + d)
        self.N = self.off[-1]
        self.seed = seed
        self.max_cumulant = max_cumulant
        self.gen_modes = [
            m for s, t in enumerate(types) if t == "general" for m in range(self.off[s], self.off[s + 1])
        ]
        self._lam = None
        self._tens = {}
        self._rdm = {}

    # --- strings -----------------------------------------------------------------
    def zeros(self):
        return np.zeros((1 << self.N, 1 << self.N), dtype=I64)

    def generator(self, cre, s, modes):
        """generator number: creators 0..N-1, annihilators N..2N-1"""
        occ = self.types[s] == "occupied"
        return modes if cre != occ else modes + self.N

    def accumulate(self, coefs, arr, axes, ops):
        """add sum over the axes of arr[...] * {ops}; axes: list of index ids (s,pos) that
        label arr; ops: list of (cre, (s,pos))."""
        arr = arr % P
        if not ops:
            coefs[0, 0] = (coefs[0, 0] + int(arr)) % P
            return
        nz = np.nonzero(arr)
        if len(nz[0]) == 0:
            return
        vals = arr[nz]
        where = {ix: k for k, ix in enumerate(axes)}
        gens = [
            self.generator(c, ix[0], self.off[ix[0]] + nz[where[ix]].astype(I64)) for c, ix in ops
        ]
        N = self.N
        mask = np.zeros(len(vals), dtype=I64)
        ok = np.ones(len(vals), dtype=bool)
        par = np.zeros(len(vals), dtype=I64)
        for i, g in enumerate(gens):
            ok &= (mask >> g) & 1 == 0
            for h in gens[:i]:
                par += h > g
            mask |= np.left_shift(1, g)
        sgn = 1 - 2 * (par & 1)
        low = (1 << N) - 1
        np.add.at(coefs, ((mask & low)[ok], (mask >> N)[ok]), (vals * sgn)[ok] % P)
        coefs %= P

    # --- tensors -----------------------------------------------------------------
    def random_tensor(self, label, up, lo):
        """Random antisymmetric tensor; up/lo: tuples of spaces."""
        key = (label, up, lo)
        if key in self._tens:
            return self._tens[key]
        su, sl = tuple(sorted(up)), tuple(sorted(lo))
        if (su, sl) != (up, lo):
            base = self.random_tensor(label, su, sl)
            pu = sorted(range(len(up)), key=lambda i: (up[i], i))
            pl = sorted(range(len(lo)), key=lambda i: (lo[i], i))
            # base axis k corresponds to position pu[k] of the requested tensor
            order = [0] * (len(up) + len(lo))
            for k, i in enumerate(pu):
                order[i] = k
            for k, i in enumerate(pl):
                order[len(up) + i] = len(up) + k
            arr = np.transpose(base, order) * (perm_sign(pu) * perm_sign(pl)) % P
        else:
            dims = [self.dims[s] for s in up + lo]
            arr = rng(self.seed, label, up, lo, tuple(self.dims)).integers(1, P, size=dims, dtype=I64)
            pos = 0
            for grp in (up, lo):
                i = 0
                while i < len(grp):
                    j = i
                    while j < len(grp) and grp[j] == grp[i]:
                        j += 1
                    arr = antisymmetrize(arr, list(range(pos + i, pos + j)))
                    i = j
                pos += len(grp)
        self._tens[key] = arr
        return arr

    # --- cumulants and density matrices ---------------------------------------------
    def cumulants(self):
        """{(Cmask, Amask): value}, number-conserving inside each general space"""
        if self._lam is None:
            lam = {}
            for s, t in enumerate(self.types):
                if t != "general":
                    continue
                modes = range(self.off[s], self.off[s + 1])
                r = rng(self.seed, "cumulant", s, tuple(self.dims))
                for k in range(1, min(self.max_cumulant, self.dims[s]) + 1):
                    for c in combinations(modes, k):
                        for a in combinations(modes, k):
                            v = int(r.integers(1, P))
                            lam[(sum(1 << m for m in c), sum(1 << m for m in a))] = v
            self._lam = lam
        return self._lam

    def rdm(self, sign):
        """exp(sign * Lambda) as a dict over masks"""
        if sign in self._rdm:
            return self._rdm[sign]
        N = self.N
        lam = {c | (a << N): v * sign % P for (c, a), v in self.cumulants().items()}
        out = {0: 1}
        power = {0: 1}
        k = 0
        while True:
            k += 1
            nxt = {}
            for m1, v1 in power.items():
                for m2, v2 in lam.items():
                    if m1 & m2:
                        continue
                    m = m1 | m2
                    nxt[m] = (nxt.get(m, 0) + v1 * v2 * shuffle_sign(m1, m2)) % P
            power = {m: v * inv(k) % P for m, v in nxt.items() if v}
            if not power:
                break
            for m, v in power.items():
                out[m] = (out.get(m, 0) + v) % P
        self._rdm[sign] = {m: v for m, v in out.items() if v}
        return self._rdm[sign]

    def shift(self, coefs, sign):
        """sign=+1: vacuum-ordered strings -> GNO strings; -1: the inverse"""
        if not self.gen_modes:
            return coefs
        N = self.N
        size = 1 << N
        flat = np.zeros(1 << (2 * N), dtype=I64)
        # flat index = C | A << N
        src = np.ascontiguousarray(coefs.T).reshape(-1)
        allm = np.nonzero(src)[0].astype(I64)
        vals = src[allm]
        for sub, g in self.rdm(sign).items():
            sel = (allm & sub) == sub
            if not sel.any():
                continue
            m = allm[sel]
            rest = m ^ sub
            # sign of bringing the generators of sub to the front
            par = np.zeros(len(m), dtype=I64)
            b = 0
            x = sub
            while x >> b:
                if (x >> b) & 1:
                    par += parity(rest & ((1 << b) - 1))
                b += 1
            s = 1 - 2 * (par & 1)
            np.add.at(flat, rest, vals[sel] * (s * g) % P)
        return np.ascontiguousarray((flat % P).reshape(size, size).T)

    def gamma(self, s):
        """gamma1[p,q] = <a+_p a_q>"""
        d, o = self.dims[s], self.off[s]
        out = np.zeros((d, d), dtype=I64)
        for (c, a), v in self.cumulants().items():
            if bin(c).count("1") == 1 and (c >> o) < (1 << d) and c >= (1 << o):
                out[c.bit_length() - 1 - o, a.bit_length() - 1 - o] = v
        return out

    def lam(self, s, k):
        """lambda_k[p1..pk, l1..lk] = cumulant of <a+_p1 .. a+_pk a_lk .. a_l1>"""
        key = ("lam", s, k)
        if key in self._tens:
            return self._tens[key]
        d, o = self.dims[s], self.off[s]
        out = np.zeros([d] * (2 * k), dtype=I64)
        for (c, a), v in self.cumulants().items():
            if bin(c).count("1") != k or (c & -c) < (1 << o) or c >= (1 << (o + d)):
                continue
            cs = [m - o for m in range(o, o + d) if (c >> m) & 1]
            As = [m - o for m in range(o, o + d) if (a >> m) & 1]
            base = As[::-1]  # lower order for a_{As[0]} .. a_{As[-1]}
            for p in permutations(range(k)):
                for q in permutations(range(k)):
                    ix = tuple(cs[i] for i in p) + tuple(base[i] for i in q)
                    out[ix] = v * perm_sign(p) * perm_sign(q) % P
        self._tens[key] = out
        return out

    def tensor(self, label, up, lo):
        """Array with axes upper + lower for a tensor of a wicked result."""
        sp = set(up + lo)
        if len(sp) == 1 and self.types[up[0] if up else lo[0]] == "general":
            s = next(iter(sp))
            if label == "gamma1" and len(up) == 1 == len(lo):
                return self.gamma(s)
            if label == "eta1" and len(up) == 1 == len(lo):
                return (np.eye(self.dims[s], dtype=I64) - self.gamma(s)) % P
            if label.startswith("lambda") and label[6:].isdigit() and len(up) == len(lo) == int(label[6:]):
                return self.lam(s, len(up))
        return self.random_tensor(label, tuple(up), tuple(lo))

    # --- expressions ---------------------------------------------------------------
    def add_term(self, coefs, value, tensors, ops):
        """coefs += value * sum over all indices of prod(tensors) * {ops}"""
        open_ix = []
        for _, ix in ops:
            if ix not in open_ix:
                open_ix.append(ix)
        factors = []
        for label, up, lo in tensors:
            arr = self.tensor(label, tuple(i[0] for i in up), tuple(i[0] for i in lo))
            factors.append((arr, list(up) + list(lo)))
        present = set(i for _, ix in factors for i in ix)
        for ix in open_ix:
            if ix not in present:
                factors.append((np.ones(self.dims[ix[0]], dtype=I64), [ix]))
        arr, axes = contract_all(factors, open_ix)
        arr = arr * value % P
        self.accumulate(coefs, arr, axes, ops)

    def expression(self, terms):
        """terms: [((tensors, ops, flag), Fraction)] -> GNO coefficients"""
        out = self.zeros()
        for (tensors, ops, _), c in terms:
            self.add_term(out, frac_mod(c), tensors, ops)
        return out

    def operator(self, label, cre, ann):
        """The operator  1/(prod n!) sum T^{ann}_{cre} {cre ... ann reversed} in GNO coefficients."""
        den = 1
        up, lo = [], []
        for s in range(len(self.dims)):
            for k in range(cre[s]):
                lo.append((s, k))
                den *= k + 1
            for k in range(ann[s]):
                up.append((s, k + cre[s]))
                den *= k + 1
        ops = [(True, i) for i in lo] + [(False, i) for i in reversed(up)]
        out = self.zeros()
        self.add_term(out, inv(den), [(label, tuple(up), tuple(lo))], ops)
        return out

    def gno_to_matrix(self, coefs):
        return to_matrix(self.shift(coefs, -1), self.N)

    def matrix_to_gno(self, M):
        return self.shift(from_matrix(M, self.N), +1)

    def ranks(self):
        n = popcounts(self.N)
        return n[:, None] + n[None, :]

    def describe(self, c, a):
        def nm(m):
            for s in range(len(self.dims)):
                if self.off[s] <= m < self.off[s + 1]:
                    return "%s%d" % ("s%d." % s, m - self.off[s])

        cs = [nm(m) for m in range(self.N) if (c >> m) & 1]
        As = [nm(m) for m in range(self.N) if (a >> m) & 1]
        return "{qp+ %s | qp %s}" % (" ".join(cs), " ".join(As))


def perm_sign(p):
    p = list(p)
    s = 1
    for i in range(len(p)):
        for j in range(i):
            if p[j] > p[i]:
                s = -s
    return s


def antisymmetrize(arr, axes):
    if len(axes) < 2:
        return arr
    out = np.zeros_like(arr)
    for p in permutations(range(len(axes))):
        order = list(range(arr.ndim))
        for k, i in enumerate(p):
            order[axes[k]] = axes[i]
        out = out + perm_sign(p) * np.transpose(arr, order)
    return out % P


def parity(x):
    x = x ^ (x >> 32)
    x = x ^ (x >> 16)
    x = x ^ (x >> 8)
    x = x ^ (x >> 4)
    x = x ^ (x >> 2)
    x = x ^ (x >> 1)
    return x & 1


def shuffle_sign(m1, m2):
    """sign of sorting (string m1)(string m2)"""
    n, b = 0, 0
    while m2 >> b:
        if (m2 >> b) & 1:
            n += bin(m1 >> (b + 1)).count("1")
        b += 1
    return -1 if n & 1 else 1


def contract_all(factors, keep):
    """Pairwise contraction modulo P; returns (array, axes) with axes a permutation of keep."""
    keep = list(keep)
    work = [(a % P, list(ix)) for a, ix in factors]

    def simplify(a, ix, needed):
        # repeated index inside one factor, and indices nobody else needs
        ids = {}
        sub = [ids.setdefault(i, len(ids)) for i in ix]
        out = [i for i in dict.fromkeys(ix) if i in needed]
        r = np.einsum(a, sub, [ids[i] for i in out]) if (len(set(ix)) < len(ix) or len(out) < len(ix)) else a
        return (np.asarray(r) % P, out if r is not a else list(ix))

    if not work:
        return np.array(1, dtype=I64), []
    work = [
        simplify(a, ix, set(keep) | set(i for k, (_, y) in enumerate(work) if k != n for i in y))
        for n, (a, ix) in enumerate(work)
    ]
    while len(work) > 1:
        best = None
        for i in range(len(work)):
            for j in range(i):
                others = set(keep) | set(x for k, (_, y) in enumerate(work) if k not in (i, j) for x in y)
                out = [x for x in dict.fromkeys(work[j][1] + work[i][1]) if x in others]
                size = 1
                dims = dict(zip(work[j][1], work[j][0].shape))
                dims.update(zip(work[i][1], work[i][0].shape))
                for x in out:
                    size *= dims[x]
                cost = 1
                for x in dims.values():
                    cost *= x
                if best is None or (size, cost) < best[0]:
                    best = ((size, cost), i, j, out)
        _, i, j, out = best
        (a, ia), (b, ib) = work[j], work[i]
        ids = {}
        sa = [ids.setdefault(x, len(ids)) for x in ia]
        sb = [ids.setdefault(x, len(ids)) for x in ib]
        r = np.einsum(a, sa, b, sb, [ids[x] for x in out])
        work = [w for k, w in enumerate(work) if k not in (i, j)] + [(np.asarray(r) % P, out)]
    a, ix = work[0]
    return a, ix
