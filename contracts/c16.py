"""C16: caches of increments and their undo.

Ghost history: H(k, o, s) is the count in slot s of order o after the first k cached
increments (n0, K0, D0: number of entries, keys and values when the caches were reset).
The invariant ties H to the cache entries; UndoCached walks the history back."""
import z3
import moc
from moc import NOEXIT, fld
from sym import Spec, Loop, Ptr, I, R, Ctx
from spec import forall, implies, And, Or, Not, If

F = z3.Function
U = 'unit:moc.cc'


def uses(inst):
    tag = '%s_%s' % (inst.bot, inst.ct)
    n0, K0, D0 = F('n0_' + tag, I, I), F('K0_' + tag, I, I, I), F('D0_' + tag, I, I, I)
    bn0, BK0 = F('bn0_' + tag, I, I), F('BK0_' + tag, I, I, I)
    H = F('H_' + tag, I, I, I, I)
    BH, UH = {}, {}

    def nm(f):
        return f if isinstance(f, str) else '%s%d' % f

    def hist(f):
        if f not in BH:
            BH[f] = F('BH_%s_%s' % (nm(f), tag), I, I, I, I)
            UH[f] = F('UH_%s_%s' % (nm(f), tag), I, I)
        return BH[f], UH[f]
    V = inst.M

    def cc(c):
        return V(c).ob.c_cache

    def bc(c):
        return V(c).o.bo_cache

    def cmatch(c, k, o, s):
        return If(And(cc(c)[k].order == o, cc(c)[k].index == s), cc(c)[k].val, 0)

    def bmatch(c, f, k, o, s):
        return If(And(bc(c)[k].order == o, bc(c)[k].index == s), fld(bc(c)[k].bo, f), 0)

    def old(c, o, s):
        """slot s of order o existed when the caches were reset"""
        return And(1 <= o, o < V(c).nc(), 0 <= s, s < n0(o))

    def bold(c, o, s):
        return And(2 <= o, o < V(c).nb(), 0 <= s, s < bn0(o))

    # ---- invariant of the count cache; h(k, o, s) is the history
    def cinv(c, h, ncache, upto=None):
        v = V(c)
        return [
            ('count entries: numbers', And(
                v.ob.min_cc_cache.size >= v.nc(), ncache >= 0, ncache < 2 ** 31,
                forall(lambda o: (implies(And(1 <= o, o < v.nc()), And(
                    v.ob.min_cc_cache[o] == n0(o), 0 <= n0(o), n0(o) <= v.n(o))), n0(o))))),
            ('count cache: entries', forall(lambda k: (implies(And(0 <= k, k < ncache), And(
                1 <= cc(c)[k].order, cc(c)[k].order < v.nc(), 0 <= cc(c)[k].index,
                cc(c)[k].index < v.n(cc(c)[k].order))), cc(c)[k].order))),
            ('count cache: keys kept', forall(lambda o, s: (implies(old(c, o, s), v.key(o, s) == K0(o, s)), v.key(o, s)))),
            ('count cache: history starts at the old counts', forall(lambda o, s: (implies(
                old(c, o, s), h(z3.IntVal(0), o, s) == D0(o, s)), h(z3.IntVal(0), o, s)))),
            ('count cache: history follows the entries', forall(lambda k, o, s: (implies(
                And(0 <= k, k < ncache, old(c, o, s)), h(k + 1, o, s) == h(k, o, s) + cmatch(c, k, o, s)), h(k + 1, o, s)))),
            ('count cache: history ends at the counts', forall(lambda o, s: (implies(
                old(c, o, s), v.cnt(o, s) == h(ncache if upto is None else upto, o, s)), v.cnt(o, s)))),
        ]

    def binv(c, h, uh, ncache, upto=None):
        v = V(c)
        r = [
            ('back-off entries: numbers', And(
                v.o.min_bo_cache.size >= v.nb(), ncache >= 0, ncache < 2 ** 31,
                forall(lambda o: (implies(And(2 <= o, o < v.nb()), And(
                    v.o.min_bo_cache[o] == bn0(o), 0 <= bn0(o), bn0(o) <= v.bn(o))), bn0(o))))),
            ('back-off cache: entries', forall(lambda k: (implies(And(0 <= k, k < ncache), And(
                1 <= bc(c)[k].order, implies(bc(c)[k].order > 1, And(
                    bc(c)[k].order < v.nb(), 0 <= bc(c)[k].index, bc(c)[k].index < v.bn(bc(c)[k].order))))), bc(c)[k].order))),
            ('back-off cache: keys kept', forall(lambda o, s: (implies(bold(c, o, s), v.bkey(o, s) == BK0(o, s)), v.bkey(o, s)))),
        ]
        for f in v.names():
            g, ug = h(f), uh(f)
            e = ncache if upto is None else upto
            r += [
                ('back-off cache: history of %s follows the entries' % nm(f), And(
                    forall(lambda k, o, s: (implies(And(0 <= k, k < ncache, bold(c, o, s)),
                                                    g(k + 1, o, s) == g(k, o, s) + bmatch(c, f, k, o, s)), g(k + 1, o, s))),
                    forall(lambda k: (implies(And(0 <= k, k < ncache), ug(k + 1) == ug(k) + If(
                        bc(c)[k].order == 1, fld(bc(c)[k].bo, f), 0)), ug(k + 1))))),
                ('back-off cache: history of %s ends at the values' % nm(f), And(
                    forall(lambda o, s: (implies(bold(c, o, s), v.b(f, o, s) == g(e, o, s)), v.b(f, o, s))),
                    v.uni(f) == ug(e))),
            ]
        return r

    def each(f, pre=''):
        """a list-valued invariant as (name, formula) pairs evaluated lazily"""
        probe = {}

        def get(c, i):
            key = (id(c.st), id(c))
            return f(c)[i][1]
        return get

    NB = 3 + 2 * (3 if inst.bot == 'bo_c' else 5)
    CN = ['numbers', 'entries', 'keys', 'start', 'steps', 'end']

    def h0(k, o, s):
        return H(k, o, s)

    def names_b():
        fs = ['den', 'nzer', 'prune_den'] if inst.bot == 'bo_c' else ['den', ('nzer', 0), ('nzer', 1), ('nzer', 2), 'prune_den']
        return ['numbers', 'entries', 'keys'] + [x + nm(f) for f in fs for x in ('steps of ', 'end of ')]

    def CINV(h=h0, size=None, upto=None):
        return [('count cache: ' + n, lambda c, i=i: cinv(c, h, size(c) if size else cc(c).size, upto(c) if upto else None)[i][1])
                for i, n in enumerate(CN)]

    def BINV(h=lambda f: hist(f)[0], uh=lambda f: hist(f)[1], size=None, upto=None):
        return [('back-off cache: ' + n, lambda c, i=i: binv(c, h, uh, size(c) if size else bc(c).size, upto(c) if upto else None)[i][1])
                for i, n in enumerate(names_b())]

    # ---------------------------------------------------------------- allocation (assumed: it only adds empty stores)
    alloc_c = Spec(inst.base + '::allocate_matrices_counts(int)', unit=U, trusted=True,
                   assigns=lambda c: [V(c).ob.loc('m_counts'), V(c).ob.loc('hashsize')] + V(c).C.assigns(),
                   ensures=[('only empty stores are added', lambda c: added(c, V(c), V(c.old)))])

    def added(c, v, w):
        o = c.a('order') if 'order' in dict(c.args) else c.a('o')
        return And(v.nc() == If(o < w.nc(), w.nc(), o + 1),
                   forall(lambda o: (implies(And(1 <= o, o < w.nc()), v.n(o) == w.n(o)), v.n(o))),
                   forall(lambda o: (implies(And(1 <= o, w.nc() <= o, o < v.nc()), v.n(o) == 0), v.n(o))),
                   forall(lambda o, s: (implies(And(1 <= o, o < w.nc()), v.key(o, s) == w.key(o, s)), v.key(o, s))),
                   forall(lambda o, s: (implies(And(1 <= o, o < w.nc()), v.cnt(o, s) == w.cnt(o, s)), v.cnt(o, s))))

    alloc_b = Spec(inst.gen + '::allocate_matrices_backoffs(int)', unit=U, trusted=True,
                   assigns=lambda c: [V(c).o.loc('m_backoffs'), V(c).ob.loc('hashsize')] + V(c).B.assigns(),
                   ensures=[('only empty stores are added', lambda c: badded(c, V(c), V(c.old)))])

    def badded(c, v, w):
        o = c.a('o')
        return And(v.nb() == If(o < w.nb(), w.nb(), o + 1),
                   forall(lambda o: (implies(And(2 <= o, o < w.nb()), v.bn(o) == w.bn(o)), v.bn(o))),
                   forall(lambda o: (implies(And(2 <= o, w.nb() <= o, o < v.nb()), v.bn(o) == 0), v.bn(o))),
                   forall(lambda o, s: (implies(And(2 <= o, o < w.nb()), v.bkey(o, s) == w.bkey(o, s)), v.bkey(o, s))),
                   *[forall(lambda o, s: (implies(And(2 <= o, o < w.nb()), v.b(f, o, s) == w.b(f, o, s)), v.b(f, o, s)))
                     for f in v.names()])

    SZ = [('sizes', lambda c: moc.sizes(V(c)))]

    # ---------------------------------------------------------------- ResetCaches
    reset = Spec(
        inst.gen + '::ResetCaches()', unit=U, ptrs=inst.ptrs, exits=NOEXIT,
        requires=SZ + [('counts exist', lambda c: V(c).nc() >= 1), ('snapshot', lambda c: snap(c))],
        assigns=lambda c: [V(c).ob.loc(x) for x in ('c_cache', 'min_cc_cache')] + [V(c).o.loc(x) for x in ('bo_cache', 'min_bo_cache')],
        ensures=[('caches are empty', lambda c: And(cc(c).size == 0, bc(c).size == 0)),
                 ('room for one more order', lambda c: And(
                     V(c).ob.min_cc_cache.size == V(c).nc() + 1, V(c).ob.min_cc_cache[V(c).nc()] == 0,
                     V(c).o.min_bo_cache.size == V(c).nb() + 1, V(c).o.min_bo_cache[V(c).nb()] == 0))] +
        CINV() + BINV(),
        loops=[Loop([('numbers of entries', lambda c: And(
            c.v('i') >= 1, Or(c.v('i') <= V(c).nc(), c.v('i') == 1), V(c).ob.min_cc_cache.size == V(c).nc() + 1,
            forall(lambda o: (implies(And(1 <= o, o < c.v('i')), V(c).ob.min_cc_cache[o] == V(c).n(o)), V(c).ob.min_cc_cache[o]))))]),
            Loop([('numbers of entries', lambda c: And(
                c.v('i') >= 2, Or(c.v('i') <= V(c).nb(), c.v('i') == 2), V(c).o.min_bo_cache.size == V(c).nb() + 1,
                forall(lambda o: (implies(And(2 <= o, o < c.v('i')), V(c).o.min_bo_cache[o] == V(c).bn(o)), V(c).o.min_bo_cache[o]))))])])

    def snap(c):
        """n0, K0, D0 name the state at the reset; the history starts there"""
        v = V(c)
        return And(
            forall(lambda o: (implies(And(1 <= o, o < v.nc()), n0(o) == v.n(o)), n0(o))),
            forall(lambda o, s: (implies(old(c, o, s), And(K0(o, s) == v.key(o, s), D0(o, s) == v.cnt(o, s),
                                                           H(0, o, s) == v.cnt(o, s))), v.key(o, s), v.cnt(o, s)) if False else
                   implies(old(c, o, s), And(K0(o, s) == v.key(o, s), D0(o, s) == v.cnt(o, s), H(0, o, s) == v.cnt(o, s)))),
            forall(lambda o: (implies(And(2 <= o, o < v.nb()), bn0(o) == v.bn(o)), bn0(o))),
            forall(lambda o, s: implies(bold(c, o, s), And(BK0(o, s) == v.bkey(o, s), *[
                hist(f)[0](0, o, s) == v.b(f, o, s) for f in v.names()]))),
            *[hist(f)[1](0) == v.uni(f) for f in v.names()])

    # ---------------------------------------------------------------- IncrementCountCache
    def h1(c):
        """the history with the new state appended"""
        k1 = cc(c).size
        return lambda k, o, s: If(k == k1, V(c).cnt(o, s), H(k, o, s))

    def neworder(c):
        v = V(c)
        return And(c.a('order') >= 1, c.a('order') <= v.nc(), v.nc() >= 1, v.ob.min_cc_cache.size > v.nc(),
                   v.ob.min_cc_cache[v.nc()] == 0, n0(v.nc()) == 0)

    def inc_end(c):
        return And(cc(c).size == cc(c.old).size + 1,
                   forall(lambda k: (implies(And(0 <= k, k < cc(c.old).size), And(
                       cc(c)[k].order == cc(c.old)[k].order, cc(c)[k].index == cc(c.old)[k].index,
                       cc(c)[k].val == cc(c.old)[k].val)), cc(c)[k].order)))

    inc = Spec(
        inst.base + '::IncrementCountCache(int, int const*, %s)' % inst.ct, unit=U, ptrs=inst.ptrs,
        requires=SZ + [('order is known or the next', neworder), ('room in the cache', lambda c: cc(c).size < 2 ** 31 - 1)] + CINV(),
        assigns=lambda c: [V(c).ob.loc('c_cache'), V(c).ob.loc('m_counts'), V(c).ob.loc('hashsize')] + V(c).C.assigns(),
        ensures=[('one entry is appended', inc_end)] +
        [(n, (lambda c, f=i: cinv(c, h1(c), cc(c).size)[f][1])) for i, (n, _) in enumerate(CINV())] +
        [('the count of the n-gram grows by the value, the others stay', lambda c: grown(c))])

    def grown(c):
        v, w = V(c), V(c.old)
        o = c.a('order')
        e = cc(c)[cc(c.old).size]
        return And(e.order == o, e.val == c.a('value'), implies(o < w.nc(), And(v.n(o) >= w.n(o), v.n(o) <= w.n(o) + 1)),
                   c.result == v.cnt(o, e.index),
                   implies(o < w.nc(), forall(lambda s: (implies(And(0 <= s, s < w.n(o)), v.cnt(o, s) == w.cnt(o, s) + If(
                       s == e.index, c.a('value'), 0)), v.cnt(o, s)))),
                   implies(o >= w.nc(), v.cnt(o, e.index) == c.a('value')),
                   implies(And(o < w.nc(), e.index >= w.n(o)), v.cnt(o, e.index) == c.a('value')),
                   forall(lambda p, s: (implies(And(1 <= p, p < w.nc(), p != o), v.cnt(p, s) == w.cnt(p, s)), v.cnt(p, s))))

    # ---------------------------------------------------------------- IncrementBackoffCache
    def bh1(c, f):
        k1 = bc(c).size
        return lambda k, o, s: If(k == k1, V(c).b(f, o, s), hist(f)[0](k, o, s))

    def buh1(c, f):
        k1 = bc(c).size
        return lambda k: If(k == k1, V(c).uni(f), hist(f)[1](k))

    def bneworder(c):
        v = V(c)
        return And(c.a('order') >= 1, c.a('order') <= v.nb(), v.nb() >= 2, v.o.min_bo_cache.size > v.nb(),
                   v.o.min_bo_cache[v.nb()] == 0, bn0(v.nb()) == 0)

    binc = Spec(
        inst.gen + '::IncrementBackoffCache(int, int const*, %s const*)' % inst.bo, unit=U, ptrs=inst.ptrs,
        requires=SZ + [('order is known or the next', bneworder), ('room in the cache', lambda c: bc(c).size < 2 ** 31 - 1)] + BINV(),
        assigns=lambda c: [V(c).o.loc('bo_cache'), V(c).o.loc('m_backoffs'), V(c).ob.loc('hashsize')] + V(c).o.locs('m_uni_bo') + V(c).B.assigns(),
        ensures=[('one entry is appended', lambda c: And(
            bc(c).size == bc(c.old).size + 1, bc(c)[bc(c.old).size].order == c.a('order'),
            *[fld(bc(c)[bc(c.old).size].bo, f) == fld(c.obj('value', inst.bot + '<%s>' % inst.ct), f) for f in V(c).names()]))] +
        [(n, (lambda c, i=i: binv(c, lambda f: bh1(c, f), lambda f: buh1(c, f), bc(c).size)[i][1]))
         for i, (n, _) in enumerate(BINV())])

    # ---------------------------------------------------------------- UndoCached
    def restored_c(c):
        v = V(c)
        return And(forall(lambda o: (implies(And(1 <= o, o < v.nc()), v.n(o) == n0(o)), v.n(o))),
                   forall(lambda o, s: (implies(old(c, o, s), v.key(o, s) == K0(o, s)), v.key(o, s))),
                   forall(lambda o, s: (implies(old(c, o, s), v.cnt(o, s) == D0(o, s)), v.cnt(o, s))))

    def restored_b(c):
        v = V(c)
        return And(forall(lambda o: (implies(And(2 <= o, o < v.nb()), v.bn(o) == bn0(o)), v.bn(o))),
                   forall(lambda o, s: (implies(bold(c, o, s), v.bkey(o, s) == BK0(o, s)), v.bkey(o, s))),
                   *[forall(lambda o, s: (implies(bold(c, o, s), v.b(f, o, s) == hist(f)[0](0, o, s)), v.b(f, o, s))) for f in v.names()])

    def same_n(c, lo=1, upto=None):
        v, w = V(c), V(c.old)
        return forall(lambda o: (implies(And(lo <= o, o < v.nc()), v.n(o) == w.n(o)), v.n(o)))

    def cut(c, j):
        """orders below j hold the old entries only"""
        v, w = V(c), V(c.old)
        return And(forall(lambda o: (implies(And(1 <= o, o < v.nc(), o < j), v.n(o) == n0(o)), v.n(o))),
                   forall(lambda o: (implies(And(1 <= o, o < v.nc(), o > j), v.n(o) == w.n(o)), v.n(o))))

    def bcut(c, j):
        v, w = V(c), V(c.old)
        return And(forall(lambda o: (implies(And(2 <= o, o < v.nb(), o < j), v.bn(o) == bn0(o)), v.bn(o))),
                   forall(lambda o: (implies(And(2 <= o, o < v.nb(), o > j), v.bn(o) == w.bn(o)), v.bn(o))))

    def keys(c):
        return forall(lambda o, s: (implies(old(c, o, s), V(c).key(o, s) == K0(o, s)), V(c).key(o, s)))

    def bkeys(c):
        return forall(lambda o, s: (implies(bold(c, o, s), V(c).bkey(o, s) == BK0(o, s)), V(c).bkey(o, s)))

    def at0(c):
        return And(keys(c), forall(lambda o, s: (implies(old(c, o, s), V(c).cnt(o, s) == D0(o, s)), V(c).cnt(o, s))))

    def bat0(c, k):
        return And(bkeys(c), *[And(V(c).uni(f) == hist(f)[1](k), forall(lambda o, s: (implies(
            bold(c, o, s), V(c).b(f, o, s) == hist(f)[0](k, o, s)), V(c).b(f, o, s)))) for f in V(c).names()])

    def jrange(c, lo, n, dec):
        j = c.v('j')
        return And(j >= lo, Or(j <= n, j == lo))

    undo = Spec(
        inst.gen + '::UndoCached()', unit=U, ptrs=inst.ptrs, exits=NOEXIT,
        requires=SZ + CINV() + BINV(),
        assigns=lambda c: V(c).C.assigns() + V(c).B.assigns() + V(c).o.locs('m_uni_bo'),
        ensures=[('all counts are as before', restored_c), ('all context statistics are as before', restored_b),
                 ('the empty context is as before', lambda c: And(*[V(c).uni(f) == hist(f)[1](0) for f in V(c).names()]))],
        loops=[
            Loop([('counts walked back', lambda c: And(
                c.v('i') >= -1, c.v('i') < cc(c).size, same_n(c), keys(c),
                forall(lambda o, s: (implies(old(c, o, s), V(c).cnt(o, s) == H(c.v('i') + 1, o, s)), V(c).cnt(o, s)))))]),
            Loop([('orders below are cut', lambda c: And(jrange(c, 1, V(c).nc(), 0), cut(c, c.v("j")), implies(c.v("j") < V(c).nc(), V(c).n(c.v("j")) == V(c.old).n(c.v("j"))))),
                  ('counts', at0)]),
            Loop([('new entries are cut', lambda c: And(
                1 <= c.v('j'), c.v('j') < V(c).nc(), cut(c, c.v('j')), V(c).n(c.v('j')) == c.v('i') + 1, c.v('i') + 1 >= n0(c.v('j')), c.v('i') + 1 <= V(c.old).n(c.v('j')), n0(c.v('j')) >= 0)),
                ('counts', at0)]),
            Loop([('statistics walked back', lambda c: And(
                c.v('i') >= -1, c.v('i') < bc(c).size, bat0(c, c.v('i') + 1),
                forall(lambda o: (implies(And(2 <= o, o < V(c).nb()), V(c).bn(o) == V(c.old).bn(o)), V(c).bn(o)))))]),
            Loop([('orders below are cut', lambda c: And(jrange(c, 2, V(c).nb(), 0), bcut(c, c.v("j")), implies(c.v("j") < V(c).nb(), V(c).bn(c.v("j")) == V(c.old).bn(c.v("j"))))),
                  ('statistics', lambda c: bat0(c, 0))]),
            Loop([('new entries are cut', lambda c: And(
                2 <= c.v('j'), c.v('j') < V(c).nb(), bcut(c, c.v('j')), V(c).bn(c.v('j')) == c.v('i') + 1, c.v('i') + 1 >= bn0(c.v('j')), c.v('i') + 1 <= V(c.old).bn(c.v('j')), bn0(c.v('j')) >= 0)),
                ('statistics', lambda c: bat0(c, 0))])])

    return [alloc_c, alloc_b, reset, inc, binc, undo]


def configure(eng, spec):
    moc.hints(eng)


SPECS = []
for inst in (moc.Inst('int', 'bo_3c'), moc.Inst('long', 'bo_c')):
    SPECS += uses(inst)
HARNESS = 'c16.cc'
BOUNDED = 'random sequences of cached and uncached increments over all orders on both smoothing classes, against a snapshot'
DECIDES = 'ResetCaches takes the snapshot, every cached increment is on record, UndoCached restores every count, key, denominator and extension statistic'
