"""What the headers document, stated independently of the code."""
import numpy as np
Q = 12289
INV3 = 8193  # 3 * 8193 = 1 mod Q


def log2(n):
    return n.bit_length() - 1


def rev(i, k):
    r = 0
    for _ in range(k):
        r = (r << 1) | (i & 1); i >>= 1
    return r


def table_exps(kind, n):
    """exponents of psi of the documented table entries; index 0 is unused (None) except for 'psi'"""
    if kind == "psi":
        return list(range(n))
    e = [None] * n
    t = 1
    while t < n:
        k = log2(t)
        for j in range(t):
            jj = rev(j, k) if kind.endswith("_rev") else j
            base = 2 * (n // (2 * t)) * jj
            if kind.startswith("mixed"):
                base += n // (2 * t)
            e[t + j] = base
        t *= 2
    return e


def ntt_exps(n, inorder, outorder, pre, post):
    """E[k', i'] = exponent of psi in the documented linear map from stored input i' to stored output k'"""
    lg = log2(n)
    R = np.array([rev(i, lg) for i in range(n)])
    i = np.arange(n); k = np.arange(n)
    ii = R if inorder == "rev" else i          # stored position i' holds coefficient ii[i']
    kk = R if outorder == "rev" else k
    E = 2 * np.outer(kk, ii)
    if pre:
        E = E + ii[None, :]
    if post:
        E = E + kk[:, None]
    return E % (2 * n)


# name -> (input order, output order, psi weight on input, psi weight on output, table)
TRANSFORMS = {
    "ntt{r}_ct_rev2std": ("rev", "std", 0, 0, "omega"),
    "mulntt{r}_ct_rev2std": ("rev", "std", 1, 0, "mixed"),
    "ntt{r}_ct_std2rev": ("std", "rev", 0, 0, "omega_rev"),
    "mulntt{r}_ct_std2rev": ("std", "rev", 1, 0, "mixed_rev"),
    "ntt{r}_gs_rev2std": ("rev", "std", 0, 0, "omega_rev"),
    "nttmul{r}_gs_rev2std": ("rev", "std", 0, 1, "mixed_rev"),
    "ntt{r}_gs_std2rev": ("std", "rev", 0, 0, "omega"),
    "nttmul{r}_gs_std2rev": ("std", "rev", 0, 1, "mixed"),
}


def powmod(b, e):
    return pow(int(b), int(e), Q)
