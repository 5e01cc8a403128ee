"""Independent reference computations (no code shared with /repo).

Conventions: (F, T, S) = R (U, Omega, E) with S, E symmetric traceless, stored condensed as components in the
orthonormal basis BAS (the test-pinned 5-vector convention).
"""
import itertools
import math
import os
from functools import lru_cache

import numpy as np
from scipy.special import erfc

from . import common
from .solver import uncondense

BAS = np.array([uncondense(e) for e in np.eye(5)])       # (5,3,3) orthonormal basis of symmetric traceless tensors
EPS = np.zeros((3, 3, 3))
for _i, _j, _k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
    EPS[_i, _j, _k] = 1
    EPS[_i, _k, _j] = -1
I3 = np.eye(3)


# ---------------------------------------------------------------------------------------------------
# derivative tensors of a radial function:  d^n f = sum_k f_{n-k} Sym(delta^k x^{n-2k}),  f_m = (1/r d/dr)^m f
# ---------------------------------------------------------------------------------------------------
def pairings(idx, k):
    """All ways to choose k unordered pairs out of idx; yields (pairs, rest)."""
    if k == 0:
        yield (), tuple(idx)
        return
    idx = tuple(idx)
    for combo in itertools.combinations(idx, 2 * k):
        rest = tuple(i for i in idx if i not in combo)
        for pr in perfect(combo):
            yield pr, rest


def perfect(idx):
    if not idx:
        yield ()
        return
    a = idx[0]
    for j in range(1, len(idx)):
        for pr in perfect(idx[1:j] + idx[j + 1:]):
            yield ((a, idx[j]),) + pr


@lru_cache(None)
def _plan(n):
    letters = "abcdefgh"[:n]
    out = []
    for k in range(n // 2 + 1):
        for pr, rest in pairings(range(n), k):
            subs = [letters[p] + letters[q] for p, q in pr] + [letters[r] for r in rest]
            out.append((n - k, k, len(rest), ",".join(subs) + "->" + letters))
    return out


@lru_cache(None)
def _delta_tensors(n):
    """For each k: list over terms not needed individually; here the constant tensors used at x=0 (n=2p)."""
    p = n // 2
    T = np.zeros((3,) * n)
    letters = "abcdefgh"[:n]
    for pr in perfect(tuple(range(n))):
        T = T + np.einsum(",".join(letters[a] + letters[b] for a, b in pr) + "->" + letters, *([I3] * p))
    return T


def dtensor(x, fm, n):
    """n-th derivative tensor at x given fm[m] = (1/r d/dr)^m f."""
    T = np.zeros((3,) * n)
    for m, k, r, subs in _plan(n):
        T += fm[m] * np.einsum(subs, *([I3] * k + [x] * r))
    return T


def radial_r(r, nmax):
    """f = r:  f_m."""
    out = [r]
    c, p = 1.0, 1
    for m in range(1, nmax + 1):
        c *= p
        p -= 2
        out.append(c * r ** p)
    return out


@lru_cache(None)
def _rerfc_terms(nmax):
    """(1/r d/dr)^m [r erfc(lr)] = sum a_{pq} l^q r^p erfc + sum b_{pq} l^q r^p exp(-l2r2); coefficients."""
    cur_e, cur_g = {(1, 0): 1.0}, {}
    out = [(dict(cur_e), dict(cur_g))]
    for _ in range(nmax):
        ne, ng = {}, {}
        for (p, q), c in cur_e.items():
            if p != 0:
                ne[(p - 2, q)] = ne.get((p - 2, q), 0) + c * p
            ng[(p - 1, q + 1)] = ng.get((p - 1, q + 1), 0) - 2 * c / math.sqrt(math.pi)
        for (p, q), c in cur_g.items():
            if p != 0:
                ng[(p - 2, q)] = ng.get((p - 2, q), 0) + c * p
            ng[(p, q + 2)] = ng.get((p, q + 2), 0) - 2 * c
        cur_e, cur_g = ne, ng
        out.append((dict(cur_e), dict(cur_g)))
    return out


def radial_rerfc(r, lam, nmax):
    e, g = erfc(lam * r), math.exp(-(lam * r) ** 2)
    return [sum(c * lam ** q * r ** p for (p, q), c in te.items()) * e + sum(c * lam ** q * r ** p for (p, q), c in tg.items()) * g
            for te, tg in _rerfc_terms(nmax)]


# ---------------------------------------------------------------------------------------------------
# from derivative tensors of psi (J = delta lap psi - grad grad psi) to the mobility blocks of a pair
# ---------------------------------------------------------------------------------------------------
def lap(T):
    """Laplacian-type contraction of the last two indices."""
    return np.einsum("...aa->...", T)


def blocks_from_D(D, a1, a2, c):
    """Blocks of the pair mobility (rows: U,Omega,E of particle 1 at x; columns: F,T,S of particle 2 at 0).

    D[n] = n-th derivative tensor of psi at x = x1 - x2, n = 2..6.
    """
    # J_ij, dJ_ijk = d_k J_ij, ddJ_ijkl
    J = I3 * lap(D[2]) - D[2]
    dJ = np.einsum("ij,k->ijk", I3, lap(D[3])) - D[3]
    L4 = lap(D[4])
    ddJ = np.einsum("ij,kl->ijkl", I3, L4) - D[4]
    lapJ = np.einsum("ijkk->ij", ddJ)
    L5 = np.einsum("abcdd->abc", D[5])
    lapdJ = np.einsum("ij,k->ijk", I3, np.einsum("aab->b", L5)) - np.einsum("ijkaa->ijk", D[5])
    L6 = np.einsum("abcdee->abcd", D[6])
    lapddJ = np.einsum("ij,kl->ijkl", I3, np.einsum("aabc->bc", L6)) - L6
    UF = c * (J + (a1 ** 2 + a2 ** 2) / 6 * lapJ)
    # source dipole: u_i = -c d_k J_ij D_jk, D_jk = S_jk + (1/2) eps_mkj T_m
    UT = -c * 0.5 * np.einsum("ijk,mkj->im", dJ + a1 ** 2 / 6 * lapdJ, EPS)
    US = -c * np.einsum("ijk,sjk->is", dJ + (a1 ** 2 / 6 + a2 ** 2 / 10) * lapdJ, BAS)
    # rotation of particle 1: (1/2) eps_nli d_l u_i
    OF = 0.5 * c * np.einsum("nli,ijl->nj", EPS, dJ + a2 ** 2 / 6 * lapdJ)
    OT = -c * 0.25 * np.einsum("nli,ijkl,mkj->nm", EPS, ddJ, EPS)
    OS = -c * 0.5 * np.einsum("nli,ijkl,sjk->ns", EPS, ddJ + a2 ** 2 / 10 * lapddJ, BAS)
    EF = c * np.einsum("til,ijl->tj", BAS, dJ + (a1 ** 2 / 10 + a2 ** 2 / 6) * lapdJ)
    ET = -c * 0.5 * np.einsum("til,ijkl,mkj->tm", BAS, ddJ + a1 ** 2 / 10 * lapddJ, EPS)
    ES = -c * np.einsum("til,ijkl,sjk->ts", BAS, ddJ + (a1 ** 2 + a2 ** 2) / 10 * lapddJ, BAS)
    return np.block([[UF, UT, US], [OF, OT, OS], [EF, ET, ES]])


def self_block(a, mu):
    d = [1 / (6 * np.pi * mu * a)] * 3 + [1 / (8 * np.pi * mu * a ** 3)] * 3 + [3 / (20 * np.pi * mu * a ** 3)] * 5
    return np.diag(d)


def pair_unbounded(x, a1, a2, mu):
    fm = radial_r(np.linalg.norm(x), 6)
    D = {n: dtensor(x, fm, n) for n in range(2, 7)}
    return blocks_from_D(D, a1, a2, 1 / (8 * np.pi * mu))


class Lattice:
    """Lattice sum of psi-derivatives for given box vectors (rows), by an Ewald split with our own parameter."""

    def __init__(self, basis, lam=None, nreal=3, nk=6):
        self.basis = np.asarray(basis, float)
        self.V = abs(np.linalg.det(self.basis))
        self.lam = lam or 1.3 * np.sqrt(np.pi) / self.V ** (1 / 3)
        self.recip = 2 * np.pi * np.linalg.inv(self.basis).T
        # choose all lattice vectors with lam*R <= 6.5 (plus the cell), all k with k/(2 lam) <= 6.5
        self.R = self._ball(self.basis, 6.2 / self.lam + np.linalg.norm(self.basis, axis=1).sum())
        self.K = [k for k in self._ball(self.recip, 12.4 * self.lam) if np.linalg.norm(k) > 1e-12]
        self.K = np.array(self.K)
        k2 = np.einsum("ij,ij->i", self.K, self.K)
        z = k2 / (4 * self.lam ** 2)
        self.kw = -8 * np.pi / k2 ** 2 * (1 + z + 2 * z ** 2) * np.exp(-z) / self.V

    @staticmethod
    def _ball(B, rad):
        inv = np.linalg.inv(B)
        m = [int(np.ceil(rad * np.linalg.norm(inv[:, i]))) for i in range(3)]
        g = np.array(list(itertools.product(*[range(-k, k + 1) for k in m])), float)
        v = g @ B
        return v[np.einsum("ij,ij->i", v, v) <= rad * rad]

    def D(self, x, skip_self=False):
        out = {n: np.zeros((3,) * n) for n in range(2, 7)}
        for R in self.R:
            y = x + R
            r = np.linalg.norm(y)
            if r * self.lam > 6.2:
                continue
            if r < 1e-9:
                if not skip_self:
                    raise ValueError("coincident particles")
                continue
            fm = radial_rerfc(r, self.lam, 6)
            for n in out:
                out[n] += dtensor(y, fm, n)
        ph = self.K @ x
        # d^n cos(k.x) : n=2 -> -cos kk ; 3 -> sin kkk ; 4 -> cos ; 5 -> -sin ; 6 -> -cos
        trig = {2: -np.cos(ph), 3: np.sin(ph), 4: np.cos(ph), 5: -np.sin(ph), 6: -np.cos(ph)}
        K = self.K
        subs = "abcdef"
        for n in out:
            w = self.kw * trig[n]
            s = ",".join("z" + ch for ch in subs[:n])
            # build progressively (cheaper than one big einsum)
            T = np.einsum("z,za->za", w, K)
            for m in range(1, n):
                T = (T[..., None] * K.reshape((len(K),) + (1,) * m + (3,)))
            out[n] += T.sum(axis=0)
        if skip_self:
            # remove the smooth part of the particle itself: psi_k-part in real space is r erf(lam r)
            # r erf = 2/sqrt(pi) sum (-1)^m lam^(2m+1) r^(2m+2)/(m!(2m+1));   d^{2p} r^{2p} = 2^p p! * (sum of pairings)
            for n in (2, 4, 6):
                p = n // 2
                m = p - 1
                coef = 2 / math.sqrt(math.pi) * (-1) ** m * self.lam ** (2 * m + 1) / (math.factorial(m) * (2 * m + 1))
                out[n] -= coef * 2 ** p * math.factorial(p) * _delta_tensors(n)
        return out


def grand_mobility(sizes, pos, dsizes, dpos, ddx, mu=1.0, lattice=None, bead_bead=True):
    """Reference long-range grand mobility in the order U,Omega,E,Ub,HalfDUb."""
    ns, nd = len(sizes), len(dsizes)
    a = np.concatenate([sizes, dsizes, dsizes])
    X = np.concatenate([np.reshape(pos, (-1, 3)), np.reshape(dpos, (-1, 3)) - 0.5 * np.reshape(ddx, (-1, 3)),
                        np.reshape(dpos, (-1, 3)) + 0.5 * np.reshape(ddx, (-1, 3))])
    n = ns + 2 * nd
    c = 1 / (8 * np.pi * mu)
    full = np.zeros((n, n, 11, 11))
    selfD = lattice.D(np.zeros(3), skip_self=True) if lattice is not None else None
    for i in range(n):
        full[i, i] = self_block(a[i], mu)
        if lattice is not None:
            full[i, i] += blocks_from_D(selfD, a[i], a[i], c)
        for j in range(i + 1, n):
            if not bead_bead and i >= ns or bead_bead == "own" and i >= ns and j != i + nd:
                continue
            x = X[i] - X[j]
            if lattice is None:
                B = pair_unbounded(x, a[i], a[j], mu)
            else:
                B = blocks_from_D(lattice.D(x), a[i], a[j], c)
            full[i, j] = B
            full[j, i] = B.T
    return assemble(full, ns, nd)


def assemble(full, ns, nd, resistance=False):
    """From per-bead 11x11 blocks to grand order; beads keep only their force part."""
    n = ns + 2 * nd
    idx = []
    for part in (slice(0, 3), slice(3, 6), slice(6, 11)):
        for i in range(ns):
            idx += [(i, k) for k in range(11)[part]]
    for b in range(2 * nd):
        idx += [(ns + b, k) for k in range(3)]
    ii = np.array([p for p, _ in idx])
    kk = np.array([k for _, k in idx])
    M = full[ii[:, None], ii[None, :], kk[:, None], kk[None, :]]
    P = bead_transform(ns, nd)
    if resistance:
        # F_grand = Q F_beads with U_beads = Q^T U_grand ; Q: Fb = F1+F2, DFb = F2-F1
        Q = np.eye(len(idx))
        s = 11 * ns
        e = np.eye(3 * nd)
        Q[s:, s:] = np.block([[e, e], [-e, e]]) if nd else Q[s:, s:]
        return Q @ M @ Q.T
    return P.T @ M @ P


def bead_transform(ns, nd):
    """F_beads = P F_grand ; U_grand = P^T U_beads."""
    n = 11 * ns + 6 * nd
    P = np.eye(n)
    if nd:
        e = np.eye(3 * nd)
        P[11 * ns:, 11 * ns:] = 0.5 * np.block([[e, -e], [e, e]])
    return P


# ---------------------------------------------------------------------------------------------------
# two-body resistance from a table of scalars
# ---------------------------------------------------------------------------------------------------
SCAL = ["XA", "YA", "YB", "XC", "YC", "XG", "YG", "YH", "XM", "YM", "ZM"]


class Table:
    """Golden copy of the scalar table (kept in /verif/data)."""

    def __init__(self, name="scalars_general_resistance_d.npy"):
        self.s = np.loadtxt(os.path.join(common.DATA, "values_of_s_dash.txt"))
        lam = np.loadtxt(os.path.join(common.DATA, "values_of_lambda.txt"))
        self.lam = np.array(sorted(set(list(lam) + [1 / v for v in lam if not np.any(np.isclose(1 / v, lam))])))
        self.raw = np.load(os.path.join(common.DATA, name))

    def get(self, sdash, lam):
        li = int(np.argmin(abs(self.lam - lam)))
        assert np.isclose(self.lam[li], lam), lam
        return {SCAL[k]: (np.interp(sdash, self.s, self.raw[k, 0, :, li]), np.interp(sdash, self.s, self.raw[k, 1, :, li])) for k in range(11)}


def half_blocks(sc, g, d, a, mu):
    """Blocks (rows F,T,S of the 'first' particle scaled by its radius a) for gamma index g (0: 11, 1: 12), d unit 1->2."""
    dd = np.outer(d, d)
    X = {k: v[g] for k, v in sc.items()}
    A = 6 * np.pi * a * mu * (X["XA"] * dd + X["YA"] * (I3 - dd))
    B = 4 * np.pi * a ** 2 * mu * X["YB"] * np.einsum("ijk,k->ij", EPS, d)
    C = 8 * np.pi * a ** 3 * mu * (X["XC"] * dd + X["YC"] * (I3 - dd))
    Gf = (X["XG"] * np.einsum("ij,k->ijk", dd - I3 / 3, d)
          + X["YG"] * (np.einsum("i,jk->ijk", d, I3) + np.einsum("j,ik->ijk", d, I3) - 2 * np.einsum("i,j,k->ijk", d, d, d)))
    G = 4 * np.pi * a ** 2 * mu * np.einsum("sij,ijk->sk", BAS, Gf)
    Ed = np.einsum("ikl,l->ik", EPS, d)
    Hf = X["YH"] * (np.einsum("ik,j->ijk", Ed, d) + np.einsum("jk,i->ijk", Ed, d))
    H = 8 * np.pi * a ** 3 * mu * np.einsum("sij,ijk->sk", BAS, Hf)
    # M on symmetric traceless tensors: projectors onto m=0, |m|=1, |m|=2 about d
    q0 = np.sqrt(1.5) * (dd - I3 / 3)
    P0 = np.einsum("sij,ij->s", BAS, q0)
    P0 = np.outer(P0, P0)
    dperp = [v for v in np.linalg.svd(d[None])[2][1:]]
    P1 = np.zeros((5, 5))
    for e in dperp:
        t = (np.outer(d, e) + np.outer(e, d)) / np.sqrt(2)
        v = np.einsum("sij,ij->s", BAS, t)
        P1 += np.outer(v, v)
    P2 = np.eye(5) - P0 - P1
    M = 20 / 3 * np.pi * a ** 3 * mu * (X["XM"] * P0 + X["YM"] * P1 + X["ZM"] * P2)
    return A, B, C, G, H, M


def pair_resistance(table, x12, a1, a2, mu=1.0):
    """22x22 as blocks [p][q] of 11x11 (F,T,S rows; U,Omega,E columns), x12 = x2 - x1."""
    r = np.linalg.norm(x12)
    d = x12 / r
    sd = 2 * r / (a1 + a2)
    s1, s2 = table.get(sd, a2 / a1), table.get(sd, a1 / a2)
    out = np.zeros((2, 2, 11, 11))
    A11, B11, C11, G11, H11, M11 = half_blocks(s1, 0, d, a1, mu)
    A12, B12, C12, G12, H12, M12 = half_blocks(s1, 1, d, a1, mu)
    A22, B22, C22, G22, H22, M22 = half_blocks(s2, 0, -d, a2, mu)
    A21, B21, C21, G21, H21, M21 = half_blocks(s2, 1, -d, a2, mu)
    out[0, 0] = np.block([[A11, B11.T, G11.T], [B11, C11, H11.T], [G11, H11, M11]])
    out[1, 1] = np.block([[A22, B22.T, G22.T], [B22, C22, H22.T], [G22, H22, M22]])
    out[0, 1] = np.block([[A12, B21.T, G21.T], [B12, C12, H21.T], [G12, H12, M12]])
    out[1, 0] = out[0, 1].T
    return out


def lubrication(table, sizes, pos, dsizes, dpos, ddx, cutoff_factor, mu=1.0, images=None, bead_bead=True):
    """Reference short-range resistance. images(x12) -> displacement to use (nearest image)."""
    ns, nd = len(sizes), len(dsizes)
    a = np.concatenate([sizes, dsizes, dsizes])
    X = np.concatenate([np.reshape(pos, (-1, 3)), np.reshape(dpos, (-1, 3)) - 0.5 * np.reshape(ddx, (-1, 3)),
                        np.reshape(dpos, (-1, 3)) + 0.5 * np.reshape(ddx, (-1, 3))])
    n = len(a)
    full = np.zeros((n, n, 11, 11))
    npairs = 0
    margin = np.inf
    for i in range(n):
        for j in range(i + 1, n):
            if not bead_bead and i >= ns:
                continue
            x = X[j] - X[i]
            if images is not None:
                x = images(x)
            sd = 2 * np.linalg.norm(x) / (a[i] + a[j])
            margin = min(margin, abs(sd - 2 * cutoff_factor))
            if sd < 2 * cutoff_factor:
                npairs += 1
                R = pair_resistance(table, x, a[i], a[j], mu)
                full[i, i] += R[0, 0]
                full[j, j] += R[1, 1]
                full[i, j] += R[0, 1]
                full[j, i] += R[1, 0]
    return assemble(full, ns, nd, resistance=True), npairs, margin


def nearest_image(basis):
    """Exact nearest image by search over neighbouring cells."""
    basis = np.asarray(basis, float)
    inv = np.linalg.inv(basis)
    shifts = np.array(list(itertools.product(range(-2, 3), repeat=3)), float)

    def f(x):
        fr = x @ inv
        fr = fr - np.round(fr)
        c = (fr + shifts) @ basis
        return c[np.argmin(np.einsum("ij,ij->i", c, c))]
    return f
