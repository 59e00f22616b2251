"""C17: pruning keeps the bookkeeping consistent."""
import z3
import moc, spec
from moc import NOEXIT, fld, P
from sym import Spec, Loop, Ptr, I, R, Ctx
from spec import forall, implies, And, Or, Not, If

U = 'unit:moc.cc'


def cls(n):
    """count class of n: seen once, twice, three times or more"""
    return If(n <= 3, n - 1, 2)


def delta(f, n, by):
    """change of an extension statistic when an n-gram of count n leaves (by=-1) or enters its class"""
    if f == 'nzer':
        return by
    return If(cls(n) == f[1], by, 0)




def uses(inst):
    K = inst.K
    L = moc.layer(inst)
    W = lambda c: spec.V(c.eng, c.st, c.a('v'), c.eng.mod.find_di_type('vector<int, std::allocator<int> >'))

    def keys(c):
        o = W(c).size
        return o, wkey(c, 0, o), wkey(c, 0, o - 1), wkey(c, 1, o - 1), wkey(c, 1, o - 2)

    def wkey(c, i, n):
        return moc.store.keyof(c.eng, c.st, spec.velem(W(c).p, 4, z3.IntVal(i)), 4 * n)

    def rec(c):
        o, k, x, k1, x1 = keys(c.old)
        return And(c.a('recorrect_kn'), K(c.old).A(o - 1, k1) != 0)

    def counts(c):
        v, w = K(c), K(c.old)
        o, k, x, k1, x1 = keys(c.old)
        n = c.a('num')
        return forall(lambda p, q: (implies(p >= 1, v.A(p, q) == w.A(p, q) + If(And(p == o, q == k), -n, 0) + If(
            And(rec(c), p == o - 1, q == k1), n - 1, 0)), v.slot(p, q)))

    def stats(c, f):
        v, w = K(c), K(c.old)
        o, k, x, k1, x1 = keys(c.old)
        n = c.a('num')
        last = w.Bf('den', o, x) == w.Bf('prune_den', o, x) + n
        one = {'den': If(last, -w.Bf('den', o, x), 0), 'prune_den': If(last, -w.Bf('prune_den', o, x), n)}.get(f)
        if one is None:
            one = delta(f, n, -1)
        m = w.A(o - 1, k1)
        two = {'den': n - 1, 'prune_den': z3.IntVal(0)}.get(f)
        if two is None:
            two = 0 if f == 'nzer' else delta(f, m, -1) + delta(f, m + n - 1, 1)
        two = If(And(rec(c), n != 1), two, 0)
        return And(v.uni(f) == w.uni(f) + If(o == 2, two, 0),
                   forall(lambda p, q: (implies(p >= 2, v.Bf(f, p, q) == w.Bf(f, p, q) + If(And(p == o, q == x), one, 0) + If(
                       And(p == o - 1, q == x1), two, 0)), v.bslot(p, q))))

    sound = [
        ('maps', lambda c: And(moc.wfc(K(c)), moc.wfb(K(c)))),
        ('room', lambda c: And(K(c).nb() >= 2, forall(lambda o: (implies(And(1 <= o, o < K(c).nc()), K(c).n(o) < 2 ** 31 - 64), K(c).n(o))),
                               forall(lambda o: (implies(And(2 <= o, o < K(c).nb()), K(c).bn(o) < 2 ** 31 - 64), K(c).bn(o))),
                               K(c).ob.c_cache.size < 2 ** 31 - 64, K(c).o.bo_cache.size < 2 ** 31 - 64)),
        ('initial statistics are 0', lambda c: And([fld(c.obj(K(c).o.loc('m_bb_init'), inst.bot + '<%s>' % inst.ct), f) == 0 for f in K(c).names()]))]
    prune = Spec(
        inst.kn() + '::prune_gram(std::vector<int, std::allocator<int>>&, %s, bool, %s*)' % (inst.ct, inst.bo), unit=U,
        ptrs=inst.knptrs, exits=NOEXIT,
        requires=sound + [('an n-gram of two or more words with its count', lambda c: And(
            W(c).size >= 2, W(c).size < 2 ** 20, c.a('num') >= 1,
            K(c).A(W(c).size, keys(c)[1]) == c.a('num'), K(c).A(W(c).size - 1, keys(c)[3]) >= 0))],
        assigns=lambda c: [K(c).ob.loc('c_cache'), K(c).o.loc('bo_cache')] + moc.frame(K(c)),
        ensures=[('its count disappears, the shorter n-gram is corrected', counts)] +
        [('%s of its context and of the shorter context, no other' % (f if isinstance(f, str) else '%s%d' % f), lambda c, f=f: stats(c, f))
         for f in (['den', 'nzer', 'prune_den'] if inst.bot == 'bo_c' else ['den', ('nzer', 0), ('nzer', 1), ('nzer', 2), 'prune_den'])])
    kt = 'InterKn_t<int, %s>' % inst.ct

    def cleaned(c, o):
        v, w = K(c), K(c.old)
        return And(forall(lambda k: (implies(True, v.A(o, k) == If(w.A(o, k) < 1, 0, w.A(o, k))), v.slot(o, k))),
                   forall(lambda s: (implies(And(0 <= s, s < v.n(o)), v.cnt(o, s) >= 1), v.cnt(o, s))))

    def cleaned_above(c, lo):
        v, w = K(c), K(c.old)
        return And(forall(lambda o, k: (implies(And(o > lo, o >= 2, o < v.nc()), v.A(o, k) == If(w.A(o, k) < 1, 0, w.A(o, k))), v.slot(o, k))),
                   forall(lambda o, s: (implies(And(o > lo, o >= 2, o < v.nc(), 0 <= s, s < v.n(o)), v.cnt(o, s) >= 1), v.cnt(o, s))))

    def rest(c, hi):
        v, w = K(c), K(c.old)
        return And(forall(lambda o, k: (implies(And(1 <= o, o < hi), v.A(o, k) == w.A(o, k)), v.slot(o, k))))

    zero = Spec(
        kt + '::remove_zeroprob_grams()', unit=U, ptrs=inst.knptrs, exits=NOEXIT,
        requires=[('maps', lambda c: moc.wfc(K(c)))],
        assigns=lambda c: K(c).C.assigns(),
        ensures=[('maps', lambda c: moc.wfc(K(c))), ('exactly the n-grams with a count below 1 are removed', lambda c: cleaned_above(c, 1)),
                 ('words are kept', lambda c: rest(c, 2))],
        loops=[Loop([('maps', lambda c: moc.wfc(K(c))), ('range', lambda c: And(c.v('o') >= -1, c.v('o') < K(c).nc())),
                     ('higher orders are clean', lambda c: cleaned_above(c, If(c.v('o') < 1, 1, c.v('o')))),
                     ('lower orders are as before', lambda c: rest(c, If(c.v('o') < 1, 1, c.v('o')) + 1))]),
               Loop([('maps', lambda c: moc.wfc(K(c))), ('range', lambda c: And(
                   2 <= c.v('o'), c.v('o') < K(c).nc(), 0 <= c.v('i'), c.v('i') <= K(c).n(c.v('o')))),
                   ('higher orders are clean', lambda c: cleaned_above(c, c.v('o'))),
                   ('lower orders are as before', lambda c: rest(c, c.v('o'))),
                   ('this order up to here', lambda c: And(
                       forall(lambda k: (Or(K(c).A(c.v('o'), k) == K(c.old).A(c.v('o'), k), And(
                           K(c).A(c.v('o'), k) == 0, K(c.old).A(c.v('o'), k) < 1)), K(c).slot(c.v('o'), k))),
                       forall(lambda s: (implies(And(0 <= s, s < c.v('i')), K(c).cnt(c.v('o'), s) >= 1), K(c).cnt(c.v('o'), s)))))])])

    def cut(c):
        off, t = c.eng.mod.di_members(c.eng.mod.find_di_type('InterKn'))['cutoffs']
        w = spec.V(c.eng, c.st, c.a('this').off(off), t)
        x = list(c.args)[1][1]
        return c.result == If(w.size == 0, 0, If(x > w.size, w[w.size - 1], w[x - 1]))

    cutoff = Spec('InterKn::cutoff(int)', unit=U, exits=NOEXIT, requires=[('order', lambda c: c.a('x') >= 1)],
                  ensures=[('the cutoff given for the order, the last one for higher orders', cut)])
    r = [zero] if inst.bot == 'bo_c' else [zero, cutoff]
    return r + [L[k] for k in ('alloc_c', 'alloc_b', 'incc', 'bincc', 'bget')] + [prune]


def configure(eng, spec):
    moc.hints(eng)


SPECS = []
for inst in (moc.Inst('int', 'bo_3c'), moc.Inst('long', 'bo_c')):
    SPECS += uses(inst)
HARNESS = 'c17.cc'
BOUNDED = 'random small counts on both smoothing classes: pruning, cutoffs, re-counting of the bookkeeping from the counts (prune_model included)'
BOUNDED_FUNCTIONS = ['InterKn_t::prune_model_fbase']
DECIDES = 'prune_gram: exact change of every count and every context statistic; remove_zeroprob_grams: exactly the n-grams below 1 go; cutoff(o); the count classes as maps under them'
