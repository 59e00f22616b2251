"""C15: lower-order counts and context statistics match their definition.

Sums over the entries of a store are folds over its slots: F(keys, values, o, j, k) is the sum of the
weights of the first j entries whose prefix (suffix) is k; the unfolding equation is assumed
at every step of the traversal (it defines F)."""
import z3
import moc, spec, store
from moc import NOEXIT, fld, P
from sym import Spec, Loop, Ptr, I, R, Ctx
from spec import forall, implies, And, Or, Not, If

U = 'unit:moc.cc'
ARR = z3.ArraySort(I, I)


class Fold:
    def __init__(self, name, proj, weight):
        self.f = z3.Function('SUM_' + name, ARR, ARR, I, I, I, I)
        self.proj, self.weight = proj, weight

    def step(self, eng, st, S, idx, j):
        o = idx[0]
        if S.fields.keys() != {''}:
            return
        v = st_view(eng, st, S, o)
        K, Vs = v
        k = z3.Int('k?fold')
        if j is None:
            st.assume(z3.ForAll([k], self.f(K, Vs, o, z3.IntVal(0), k) == 0, patterns=[self.f(K, Vs, o, z3.IntVal(0), k)]))
        else:
            st.assume(z3.ForAll([k], self.f(K, Vs, o, j + 1, k) == self.f(K, Vs, o, j, k) + z3.If(
                self.proj(z3.Select(K, j), o) == k if self.proj is store.SUF else z3.Or(o == 1, self.proj(z3.Select(K, j), o) == k),
                self.weight(eng, z3.Select(Vs, j)), 0), patterns=[self.f(K, Vs, o, j + 1, k)]))


def st_view(eng, st, S, o):
    r, p = S.ck()
    (q, pp), s = S.cf('')
    return z3.Select(eng.cell(st, r, p, I), o), z3.Select(eng.cell(st, q, pp, s), o)


THR = z3.Int('threshold')
DEN = Fold('den', store.PRE, lambda e, v: v)
KN = Fold('kn', store.SUF, lambda e, v: z3.If(v < THR, v, THR))
RAW = Fold('raw', store.SUF, lambda e, v: v)
NZ = Fold('nzer', store.PRE, lambda e, v: z3.If(v == 0, 0, 1))
NZC = [Fold('nzer%d' % i, store.PRE, lambda e, v, i=i: z3.If(z3.And(v != 0, (v == i + 1) if i < 2 else v >= 3), 1, 0)) for i in range(3)]
ALL = [DEN, KN, RAW, NZ] + NZC


TOT = z3.Function('ngrams_from_order', I, I)


def keyaxiom():
    a, b, x, y, n = z3.Array('a?key', I, I), z3.Array('b?key', I, I), z3.Int('x?key'), z3.Int('y?key'), z3.Int('n?key')
    d = z3.Function('differs_at', ARR, I, ARR, I, I, I)(a, x, b, y, n)
    return z3.ForAll([a, b, x, y, n], z3.Or(store.KEYOF(a, x, n) == store.KEYOF(b, y, n), z3.And(
        0 <= d, 4 * d < n, z3.Select(a, x + d) != z3.Select(b, y + d))), patterns=[z3.MultiPattern(store.KEYOF(a, x, n), store.KEYOF(b, y, n))])


def uses(inst):
    K = inst.K
    L = moc.layer(inst)
    kt = 'InterKn_t<int, %s>' % inst.ct

    def top(c):
        return c.obj('this', 'InterKn').m_order

    def bnd(c):
        return c.obj('this', 'InterKn').m_sent_boundary

    def thr(c):
        return c.obj('this', kt).m_new_treshold

    def F(c, fold, o, j, k):
        v = K(c)
        return fold.f(v.ks(o), v.vs(o), o, j, k)

    sound = [
        ('maps', lambda c: And(moc.wfc(K(c)), moc.wfb(K(c)))),
        ('order', lambda c: And(1 <= top(c), top(c) < 2 ** 20)),
        ('room', lambda c: And(
            TOT(top(c) + 1) == 0, forall(lambda o: (implies(And(1 <= o, o <= top(c)), And(
                TOT(o) == TOT(o + 1) + If(o < K(c).nc(), K(c).n(o), 0), TOT(o) >= 0, TOT(o) < 2 ** 31 - 64)), TOT(o))),
            forall(lambda o: (implies(And(1 <= o, o < K(c).nc()), K(c).n(o) < 2 ** 31 - 64), K(c).n(o))),
            forall(lambda o: (implies(And(2 <= o, o < K(c).nb()), K(c).bn(o) + TOT(If(o <= top(c), o, top(c) + 1)) < 2 ** 31 - 64), K(c).bn(o)))))]

    def iso(c):
        return And(moc.wfc(K(c)), moc.wfb(K(c)))

    def room(c, o, j):
        """sizes while order o is at entry j"""
        v, w = K(c), K(c.old)
        return And(forall(lambda p: (implies(And(1 <= p, p < v.nc()), v.n(p) <= If(p > top(c), w.n(p), If(p >= o, TOT(p), If(
            p == o - 1, w.n(p) + j, w.n(p))))), v.n(p))),
            forall(lambda p: (implies(And(2 <= p, p < v.nb()), v.bn(p) <= If(p < w.nb(), w.bn(p), 0) + If(
                p > top(c), 0, If(p > o, TOT(p), If(p == o, j, 0)))), v.bn(p))))

    def nc_same(c):
        return K(c).nc() == K(c.old).nc()

    # ---- definitions of the results
    def den_done(c, lo):
        v, w = K(c), K(c.old)
        return forall(lambda o, k: (implies(And(o > lo, o <= top(c), o >= 1), v.Bf('den', o, k) == w.Bf('den', o, k) + If(
            o < v.nc(), F(c, DEN, o, v.n(o), k), 0)), v.bslot(o, k)))

    def den1(c, j=None):
        v, w = K(c), K(c.old)
        return v.uni('den') == w.uni('den') + If(1 < v.nc(), F(c, DEN, z3.IntVal(1), v.n(1) if j is None else j, z3.IntVal(0)), 0)

    def bo_rest(c, hi):
        """statistics of order hi and below (and beyond the model) are untouched; only the denominator changes elsewhere"""
        v, w = K(c), K(c.old)
        return And([And(
            implies(True if f != 'den' else hi >= 1, v.uni(f) == w.uni(f)),
            forall(lambda o, k: (implies(And(o >= 2, Or(o <= hi, o > top(c)) if f == 'den' else z3.BoolVal(True)),
                                         v.Bf(f, o, k) == w.Bf(f, o, k)), v.bslot(o, k)))) for f in v.names()])

    def low_done(c, fold, lo):
        """counts of order o-1 for o > lo"""
        v, w = K(c), K(c.old)
        return forall(lambda o, k: (implies(And(o >= lo, o >= 1, o < top(c), o < v.nc()), v.A(o, k) == w.A(o, k) + If(
            o + 1 < v.nc(), F(c, fold, o + 1, v.n(o + 1), k), 0)), v.slot(o, k)))

    def low_rest(c, hi):
        v, w = K(c), K(c.old)
        return forall(lambda o, k: (implies(And(o >= 1, Or(o < hi, o >= top(c))), v.A(o, k) == w.A(o, k)), v.slot(o, k)))

    def dens(c, o, j):
        """order o, up to entry j"""
        v, w = K(c), K(c.old)
        return And(implies(o == 1, v.uni('den') == w.uni('den') + F(c, DEN, z3.IntVal(1), j, z3.IntVal(0))),
                   implies(o != 1, v.uni('den') == w.uni('den')),
                   forall(lambda k: (implies(o >= 2, v.Bf('den', o, k) == w.Bf('den', o, k) + F(c, DEN, o, j, k)), v.bslot(o, k))))

    def lows(c, fold, o, j):
        v, w = K(c), K(c.old)
        return forall(lambda k: (implies(o >= 2, v.A(o - 1, k) == w.A(o - 1, k) + F(c, fold, o, j, k)), v.slot(o - 1, k)))

    def vsize(c):
        return spec.V(c.eng, c.st, c.v('v'), c.eng.mod.find_di_type('vector<int, std::allocator<int> >')).size == top(c)

    def J(c):
        return store.stepidx(c.eng, c.st) + 1

    def stepping(c, o):
        """the traversal is on the store of order o"""
        return And(o < K(c).nc(), o >= 1, o <= top(c), 0 <= J(c), J(c) <= K(c).n(o))

    def outer(fold):
        o = lambda c: c.v('o')
        return Loop([('maps', iso), ('range', lambda c: And(0 <= o(c), o(c) <= top(c), nc_same(c), vsize(c))),
                     ('sizes', lambda c: room(c, o(c) + 1, TOT(o(c) + 1))),
                     ('denominators of the higher orders', lambda c: And(den_done(c, If(o(c) < 1, 1, o(c))), implies(o(c) < 1, den1(c)))),
                     ('other statistics', lambda c: bo_rest(c, o(c))),
                     ('counts below the higher orders', lambda c: low_done(c, fold, o(c))),
                     ('other counts', lambda c: low_rest(c, o(c)))])

    def inner(fold):
        o = lambda c: c.v('o')
        return Loop([('maps', iso), ('range', lambda c: And(nc_same(c), o(c) >= 1, o(c) <= top(c), vsize(c))),
                     ('at an entry', lambda c: implies(o(c) < K(c).nc(), stepping(c, o(c)))),
                     ('sizes', lambda c: If(o(c) < K(c).nc(), room(c, o(c), J(c)), room(c, o(c), 0))),
                     ('denominators of the higher orders', lambda c: den_done(c, o(c))),
                     ('denominators up to here', lambda c: If(o(c) < K(c).nc(), dens(c, o(c), J(c)), bo_rest(c, o(c)))),
                     ('other statistics', lambda c: And(bo_rest(c, o(c) - 1), implies(o(c) >= 2, K(c).uni('den') == K(c.old).uni('den')))),
                     ('counts below the higher orders', lambda c: low_done(c, fold, o(c))),
                     ('counts up to here', lambda c: If(o(c) < K(c).nc(), lows(c, fold, o(c), J(c)), low_rest(c, o(c)))),
                     ('other counts', lambda c: low_rest(c, o(c) - 1))])

    def est(fn, fold, req, modular=None):
        return Spec(
            kt + '::' + fn, unit=U, ptrs=inst.knptrs, exits=NOEXIT,
            requires=sound + [('no sentence boundary (as in the constructor)', lambda c: bnd(c) < 0)] + req,
            assigns=lambda c: moc.frame(K(c)) + store.stepframe(),
            ensures=[('maps', iso),
                     ('a denominator is the sum of the counts of the extensions', lambda c: And(den_done(c, 1), den1(c))),
                     ('no other statistics change', lambda c: bo_rest(c, 0)),
                     ('a lower-order count is the %s' % ('number of its preceding words' if fold is KN else 'sum of the counts of its extensions to the left'),
                      lambda c: low_done(c, fold, 1)),
                     ('highest-order counts are kept', lambda c: low_rest(c, 0))],
            loops=[outer(fold), inner(fold), Loop([]), Loop([]), Loop([])])

    kn = est('estimate_bo_counts(bool)', KN, [('modified counts', lambda c: And(
        THR == thr(c), c.obj('this', 'InterKn').m_absolute_discounting == 0))])
    ab = est('estimate_bo_counts_absolute_discounting(bool)', RAW, [])

    # ---- numbers of extensions
    folds = {'nzer': NZ}
    for i in range(3):
        folds[('nzer', i)] = NZC[i]

    def nz(c, upto, o, j):
        """statistics of orders below upto are complete, order o up to entry j"""
        v, w = K(c), K(c.old)

        def amount(f, p, k):
            return If(And(p < upto, p <= top(c), p < v.nc()), F(c, folds[f], p, v.n(p), k), If(And(p == o, p < v.nc()), F(c, folds[f], p, j, k), 0))
        r = []
        for f in v.names():
            if f in folds:
                r.append(v.uni(f) == w.uni(f) + amount(f, z3.IntVal(1), z3.IntVal(0)))
                r.append(forall(lambda p, k: (implies(p >= 2, v.Bf(f, p, k) == w.Bf(f, p, k) + amount(f, p, k)), v.bslot(p, k))))
            else:
                r += [v.uni(f) == w.uni(f), forall(lambda p, k: (implies(p >= 2, v.Bf(f, p, k) == w.Bf(f, p, k)), v.bslot(p, k)))]
        return And(r)

    def nzroom(c, o, j):
        v, w = K(c), K(c.old)
        return And(forall(lambda p: (implies(And(2 <= p, p < v.nb()), v.bn(p) <= If(p < w.nb(), w.bn(p), 0) + If(
            p > top(c), 0, If(p < o, TOT(p), If(p == o, j, 0)))), v.bn(p))))

    def entry_pos(c):
        v = K(c)
        return And(forall(lambda o, s: (implies(And(1 <= o, o < v.nc(), 0 <= s, s < v.n(o)), v.cnt(o, s) >= 0), v.cnt(o, s))),
                   implies(inst.bot != 'bo_c', And(v.nb() > top(c), v.nb() > 2)) if inst.bot != 'bo_c' else True)

    ov = lambda c: c.v('o')
    nzer = Spec(
        inst.kn() + '::estimate_nzer_counts()', unit=U, ptrs=inst.knptrs, exits=NOEXIT,
        requires=sound + [('counts are not negative', entry_pos)],
        assigns=lambda c: moc.frame(K(c)) + store.stepframe(),
        ensures=[('numbers of extensions seen once, twice, three or more times', lambda c: nz(c, top(c) + 1, -1, 0)),
                 ('maps', lambda c: moc.wfb(K(c)))],
        loops=[Loop([('maps', lambda c: moc.wfb(K(c))), ('range', lambda c: And(1 <= ov(c), ov(c) <= top(c) + 1, vsize(c))),
                     ('sizes', lambda c: And(nzroom(c, ov(c), 0), K(c).nb() >= K(c.old).nb())),
                     ('orders below', lambda c: nz(c, ov(c), -1, 0))]),
               Loop([('maps', lambda c: moc.wfb(K(c))), ('range', lambda c: And(1 <= ov(c), ov(c) <= top(c), vsize(c))),
                     ('at an entry', lambda c: implies(ov(c) < K(c).nc(), stepping(c, ov(c)))),
                     ('sizes', lambda c: And(nzroom(c, ov(c), If(ov(c) < K(c).nc(), J(c), 0)), K(c).nb() >= K(c.old).nb())),
                     ('up to here', lambda c: nz(c, ov(c), ov(c), J(c)))])])
    # ---- the sentence start is taken out of the unigram statistics
    KB = lambda c: store.KEYOF(z3.K(I, bnd(c)), z3.IntVal(0), z3.IntVal(4))

    def started(c):
        """how often the sentence start was counted"""
        return If(1 < K(c).nc(), K(c).A(z3.IntVal(1), KB(c)), 0)

    def kept(c):
        v, w = K(c), K(c.old)
        return And([forall(lambda o, k: (implies(o >= 2, v.Bf(f, o, k) == w.Bf(f, o, k)), v.bslot(o, k))) for f in v.names()])

    def removed(c, only):
        v, w = K(c), K(c.old)
        x = started(c.old)
        cl = lambda f: -x if f == 'den' else 0 if f == 'prune_den' else If(x == 0, 0, If(
            {('nzer', 0): x == 1, ('nzer', 1): x == 2, ('nzer', 2): x >= 3}.get(f, z3.BoolVal(True)), -1, 0))
        return And([v.uni(f) == w.uni(f) + cl(f) for f in v.names() if (f in ('den', 'prune_den')) == only])

    start = Spec(
        inst.kn() + '::remove_sent_start_prob()', unit=U, ptrs=inst.knptrs, exits=NOEXIT,
        requires=sound + [('no overflow', lambda c: And(K(c).nb() >= 2, K(c).A(z3.IntVal(1), KB(c)) >= 0)),
                          ('initial statistics are 0', lambda c: And([fld(c.obj(K(c).o.loc('m_bb_init' if inst.bot == 'bo_c' else 'm_3bb_init'), '%s<%s>' % (inst.bot, inst.ct)), f) == 0 for f in K(c).names()])),
                          ('keys are their words', lambda c: keyaxiom())],
        assigns=lambda c: moc.frame(K(c)),
        ensures=[('maps', iso),
                 ('the sentence start is not counted as a unigram', lambda c: implies(1 < K(c.old).nc(), K(c).A(z3.IntVal(1), KB(c.old)) == 0)),
                 ('other counts are kept', lambda c: forall(lambda o, k: (implies(And(o >= 1, Or(o != 1, k != KB(c.old))), K(c).A(o, k) == K(c.old).A(o, k)), K(c).slot(o, k)))),
                 ('the unigram denominator loses its count', lambda c: removed(c, True)),
                 ('the numbers of unigrams lose its class', lambda c: removed(c, False)),
                 ('the statistics of longer contexts are kept', kept)])
    r = [L[k] for k in ('alloc_c', 'alloc_b', 'inc', 'bden', 'bnz', 'get', 'binc')]
    return r + [kn, ab, nzer, start]


def configure(eng, spec):
    moc.hints(eng)
    eng.onstep = [f.step for f in ALL]


SPECS = []
for inst in (moc.Inst('int', 'bo_3c'), moc.Inst('long', 'bo_c')):
    SPECS += uses(inst)
HARNESS = 'c15.cc'
BOUNDED = 'random texts and orders on both smoothing classes: every denominator, extension statistic and lower-order count against its definition'
DECIDES = 'estimate_bo_counts (both discountings), estimate_nzer_counts: every denominator, extension class and lower-order count is the sum over the entries; remove_sent_start_prob: exactly the count and the class of the sentence start are taken out'
