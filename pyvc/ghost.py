"""Specification functions (ghost), defined by axioms that only ever constrain the function itself.

tmin/tmax(arr, n, times)         least / greatest time of the n entries arr (n > 0)
gmin/gmax/ghas(tiers, n, ...)    the same over all non-empty tiers of a group
ivat(arr, n, starts, ends, t)    an index whose entry contains t, -1 if there is none
nrst(arr, n, times, t)           the first index whose entry is nearest to t (n > 0)
npt(arr, n, times, t)            that entry (unfolded only for times that are looked up)
desc(lists, values, lengths, a, b)   b is a or below a through lists of children
ldesc(lists, values, lengths, l, b)  b is an entry of list l or below one; lbr(..): the index of such an entry
                                     (these two unfold without end, so they are unfolded by hand: desc_def, ldesc_def)
"""
import z3
from vals import I, R, B

AI, AR, AAI = z3.ArraySort(I, I), z3.ArraySort(I, R), z3.ArraySort(I, z3.ArraySort(I, I))
T = {lo: (z3.Function("tmin" if lo else "tmax", AI, I, AR, R), z3.Function("tminw" if lo else "tmaxw", AI, I, AR, I)) for lo in (True, False)}
G = {lo: (z3.Function("gmin" if lo else "gmax", AI, I, AI, AAI, AI, AR, R), z3.Function("gminw" if lo else "gmaxw", AI, I, AI, AAI, AI, AR, I)) for lo in (True, False)}
ghas = z3.Function("ghas", AI, I, AI, AAI, AI, B)
ghasw = z3.Function("ghasw", AI, I, AI, AAI, AI, I)
ivat = z3.Function("ivat", AI, I, AR, AR, R, I)
nrst = z3.Function("nrst", AI, I, AR, R, I)
npt = z3.Function("npt", AI, I, AR, R, I)


desc = z3.Function("desc", AI, AAI, AI, I, I, B)
ldesc = z3.Function("ldesc", AI, AAI, AI, I, I, B)
lbr = z3.Function("lbr", AI, AAI, AI, I, I, I)


def absr(t): return z3.If(t >= 0, t, -t)


def axioms():
    a, seq, cnt, tl = z3.Const("a", AI), z3.Const("seq", AI), z3.Const("cnt", AI), z3.Const("tl", AI)
    vals, t, t2 = z3.Const("vals", AAI), z3.Const("t", AR), z3.Const("t2", AR)
    n, j = z3.Ints("n j")
    x = z3.Real("x")
    out = []
    for lo in (True, False):
        f, w = T[lo]
        le = (lambda u, v: u <= v) if lo else (lambda u, v: u >= v)
        out.append(z3.ForAll([a, n, t, j], z3.Implies(z3.And(0 <= j, j < n), le(f(a, n, t), t[a[j]])), patterns=[z3.MultiPattern(f(a, n, t), a[j])]))
        ww = w(a, n, t)
        out.append(z3.ForAll([a, n, t], z3.Implies(n > 0, z3.And(0 <= ww, ww < n, f(a, n, t) == t[a[ww]])), patterns=[f(a, n, t)]))
        g, gw = G[lo]
        gt = g(tl, n, seq, vals, cnt, t)
        l = seq[tl[j]]
        out.append(z3.ForAll([tl, n, seq, vals, cnt, t, j], z3.Implies(z3.And(0 <= j, j < n, cnt[l] > 0), le(gt, f(vals[l], cnt[l], t))),
                             patterns=[z3.MultiPattern(gt, tl[j])]))
        k = gw(tl, n, seq, vals, cnt, t)
        l = seq[tl[k]]
        out.append(z3.ForAll([tl, n, seq, vals, cnt, t], z3.Implies(ghas(tl, n, seq, vals, cnt), z3.And(0 <= k, k < n, cnt[l] > 0, gt == f(vals[l], cnt[l], t))),
                             patterns=[gt]))
    gh = ghas(tl, n, seq, vals, cnt)
    out.append(z3.ForAll([tl, n, seq, vals, cnt, j], z3.Implies(z3.And(0 <= j, j < n, cnt[seq[tl[j]]] > 0), gh), patterns=[z3.MultiPattern(gh, tl[j])]))
    k = ghasw(tl, n, seq, vals, cnt)
    out.append(z3.ForAll([tl, n, seq, vals, cnt], z3.Implies(gh, z3.And(0 <= k, k < n, cnt[seq[tl[k]]] > 0)), patterns=[gh]))
    iv = ivat(a, n, t, t2, x)
    out.append(z3.ForAll([a, n, t, t2, x], z3.And(-1 <= iv, iv < z3.If(n > 0, n, 0), z3.Implies(iv >= 0, z3.And(t[a[iv]] <= x, t2[a[iv]] > x))), patterns=[iv]))
    out.append(z3.ForAll([a, n, t, t2, x, j], z3.Implies(z3.And(0 <= j, j < n, t[a[j]] <= x, t2[a[j]] > x), iv >= 0), patterns=[z3.MultiPattern(iv, a[j])]))
    nr = nrst(a, n, t, x)
    out.append(z3.ForAll([a, n, t, x], z3.Implies(n > 0, z3.And(0 <= nr, nr < n)), patterns=[nr]))
    out.append(z3.ForAll([a, n, t, x], npt(a, n, t, x) == a[nr], patterns=[nr]))
    out.append(z3.ForAll([a, n, t, x, j], z3.Implies(z3.And(0 <= j, j < n), z3.And(absr(t[a[nr]] - x) <= absr(t[a[j]] - x),
                         z3.Implies(j < nr, absr(t[a[nr]] - x) < absr(t[a[j]] - x)))), patterns=[z3.MultiPattern(nr, a[j])]))
    return out


def desc_def(seq, vals, cnt, x):
    """unfolds desc at x"""
    r, j = z3.Ints("r!d j!d")
    d, ld = desc(seq, vals, cnt, x, r), ldesc(seq, vals, cnt, seq[x], r)
    c = vals[seq[x]][j]
    yield z3.ForAll([r], d == z3.Or(r == x, ld), patterns=[d, ld])
    yield from ldesc_def(seq, vals, cnt, seq[x])
    yield z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cnt[seq[x]]), z3.And(desc(seq, vals, cnt, c, c), desc(seq, vals, cnt, x, c))), patterns=[c])


def ldesc_def(seq, vals, cnt, l):
    """unfolds ldesc at l"""
    r, j = z3.Ints("r!d j!d")
    ld, br, dj = ldesc(seq, vals, cnt, l, r), lbr(seq, vals, cnt, l, r), desc(seq, vals, cnt, vals[l][j], r)
    yield z3.ForAll([r], z3.Implies(ld, z3.And(0 <= br, br < cnt[l], desc(seq, vals, cnt, vals[l][br], r))), patterns=[ld])
    yield z3.ForAll([r, j], z3.Implies(z3.And(0 <= j, j < cnt[l], dj), ld), patterns=[dj])
    c = vals[l][j]
    yield z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cnt[l]), z3.And(desc(seq, vals, cnt, c, c), ldesc(seq, vals, cnt, l, c))), patterns=[c])
