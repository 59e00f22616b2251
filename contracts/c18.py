"""C18: smoothed probabilities follow the formula and sum to one; discounts stay in range."""
import z3
import moc, spec, store
from moc import NOEXIT, fld, P
from sym import Spec, Loop, Ptr, I, R, Ctx
from spec import forall, implies, And, Or, Not, If

U = 'unit:moc.cc'
TP = z3.Function('prob_of_suffix', I, R)        # probability from the last n words


def real(x):
    return z3.ToReal(x) if x.sort() == I else x


def e_off(c):
    return c.eng.mod.di_members(c.eng.mod.find_di_type('Vocabulary'))['m_indices'][0]


def cls(n):
    return If(n <= 3, n - 1, 2)


def uses(inst):
    K = inst.K
    L = moc.layer(inst)
    three = inst.bot != 'bo_c'
    kt = 'InterKn_t<int, %s>' % inst.ct
    me = inst.kn()
    di = me.replace('>', ' >') if False else me

    def discs(c):
        off, t = c.eng.mod.di_members(c.eng.mod.find_di_type(me))['m_discount']
        return spec.V(c.eng, c.st, c.a('this').off(off), t)

    def d(c, o, j=None):
        v = discs(c)[o]
        return v.disc[j] if three else v

    def top(c):
        return c.obj('this', 'InterKn').m_order

    def words(c):
        e = c.eng
        off, t = e.mod.di_members(e.mod.find_di_type(kt))['vocab']
        o2, t2 = e.mod.di_members(e.mod.find_di_type('Vocabulary'))['m_words']; o2 = e_off(c)
        return spec.V(e, c.st, c.a('this').off(off).off(o2), t2).size

    def B(c, f, o, k):
        return real(K(c).Bf(f, o, k))

    def share(c, o, x, pr=True):
        """discounted mass of a context (times its denominator)"""
        s = (d(c, o, 0) * B(c, ('nzer', 0), o, x) + d(c, o, 1) * B(c, ('nzer', 1), o, x) + d(c, o, 2) * B(c, ('nzer', 2), o, x)) \
            if three else d(c, o) * B(c, 'nzer', o, x)
        return s + B(c, 'prune_den', o, x) if pr else s

    def coeff(c, o, x):
        return If(o > top(c), z3.RealVal(1), If(K(c).Bf('den', o, x) == 0, z3.RealVal(1), share(c, o, x) / B(c, 'den', o, x)))

    def prob(c, o, x, n):
        """mass an n-gram with count n gets in its context"""
        sm = If(o == 1, share(c, z3.IntVal(1), x, three) / B(c, 'den', z3.IntVal(1), x) / real(words(c)), z3.RealVal(0))
        den = K(c).Bf('den', o, x)
        dd = d(c, o, cls(n)) if three else d(c, o)
        return sm + If(And(n > 0, den > 0), (real(n) - dd) / real(den), z3.RealVal(0))

    sound = [
        ('maps', lambda c: And(moc.wfc(K(c)), moc.wfb(K(c)), K(c).nb() >= 2)),
        ('a discount per order', lambda c: And(discs(c).size == top(c) + 1, top(c) >= 1, top(c) < 2 ** 20)),
        ('initial statistics are 0', lambda c: And([fld(c.obj(K(c).o.loc('m_bb_init'), inst.bot + '<%s>' % inst.ct), f) == 0 for f in K(c).names()])),
        ('something was counted', lambda c: And(K(c).uni('den') > 0, words(c) > 0, words(c) < 2 ** 31)),
        ('statistics are not negative', lambda c: forall(lambda p, k: (And([K(c).Bf(f, p, k) >= 0 for f in K(c).names()]), K(c).bslot(p, k))))]

    def x_of(c, p=2):
        return moc.bkey(c, P(c, p), P(c, 1))

    def rng(c, o):
        """discounts of an order are in their range"""
        return And([And(d(c, o, j) >= 0, d(c, o, j) <= j + 1) for j in range(3)]) if three else And(d(c, o) >= 0, d(c, o) <= 1)

    kp = Spec(
        me + '::kn_prob(int, int const*, %s)' % inst.ct, unit=U, ptrs=inst.knptrs, exits=NOEXIT,
        requires=sound + [('order', lambda c: And(P(c, 1) >= 1, P(c, 1) <= top(c)))],
        ensures=[('discounted count over denominator, plus the uniform share for words', lambda c: c.result == prob(c, P(c, 1), x_of(c), P(c, 3)))])

    # ---- lemma: the masses of a context and its share are its denominator
    def total(c):
        e, st, o, x = c.eng, c.st, P(c, 1), x_of(c)
        v = K(c)
        f = z3.Function('mass_%s' % inst.ct, I, R)
        D = z3.Function('counts_%s' % inst.ct, I, I)
        N = [z3.Function('ext%d_%s' % (j, inst.ct), I, I) for j in range(3 if three else 1)]
        j = e.fresh('j')
        key, cnt = v.key(o, j), v.cnt(o, j)
        hit = And(Or(o == 1, store.PRE(key, o) == x), cnt > 0)
        ds = [d(c, o, i) if three else d(c, o) for i in range(3 if three else 1)]

        def ident(j):
            return f(j) == real(D(j)) - z3.Sum([ds[i] * real(N[i](j)) for i in range(len(ds))])
        zero = And(f(0) == 0, D(0) == 0, *[n(0) == 0 for n in N])
        step = And(f(j + 1) == f(j) + If(hit, real(cnt) - (d(c, o, cls(cnt)) if three else ds[0]), z3.RealVal(0)),
                   D(j + 1) == D(j) + If(hit, cnt, 0),
                   *[N[i](j + 1) == N[i](j) + If(And(hit, cls(cnt) == i) if three else hit, 1, 0) for i in range(len(ds))])
        ranged = rng(c, o)
        e.oblige(st, 'lemma', 'masses of the extensions: none', implies(zero, ident(z3.IntVal(0))))
        e.oblige(st, 'lemma', 'masses of the extensions: one more', implies(And(step, ident(j)), ident(j + 1)))
        e.oblige(st, 'lemma', 'no extension has a negative mass', implies(And(ranged, hit), real(cnt) - (d(c, o, cls(cnt)) if three else ds[0]) >= 0))
        n = v.n(o)
        stats = And(v.Bf('den', o, x) == D(n) + v.Bf('prune_den', o, x),
                    *[v.Bf(('nzer', i) if three else 'nzer', o, x) == N[i](n) for i in range(len(ds))])
        e.oblige(st, 'lemma', 'the extensions and the back-off share add up to one', implies(
            And(stats, ident(n), v.Bf('den', o, x) > 0, o <= top(c)), f(n) / real(v.Bf('den', o, x)) + coeff(c, o, x) == 1))
        e.oblige(st, 'lemma', 'the back-off share is not negative', implies(And(ranged, v.Bf('den', o, x) > 0, o <= top(c)), coeff(c, o, x) >= 0))
        m = z3.Function('words_%s' % inst.ct, I, R)
        if three or True:
            w1 = z3.IntVal(1)
            pr = 0 if three else v.uni('prune_den')
            e.oblige(st, 'lemma', 'the words add up to one', implies(
                And(o == 1, stats, ident(n), pr == 0), real(words(c)) * (share(c, w1, x, three) / B(c, 'den', w1, x) / real(words(c))) + f(n) / B(c, 'den', w1, x) == 1))

    kc = Spec(
        me + '::kn_coeff(int, int const*)', unit=U, ptrs=inst.knptrs, exits=NOEXIT, ghost=total,
        requires=sound + [('order', lambda c: P(c, 1) >= 1)],
        ensures=[('back-off share of the context', lambda c: c.result == coeff(c, P(c, 1), x_of(c)))])
    kc3 = Spec(
        'float ' + me + '::kn_coeff_3nzer<%s>(int, int const*, %s const*)' % (inst.bo, inst.bo), unit=U, ptrs=inst.knptrs, exits=NOEXIT,
        requires=sound + [('order', lambda c: P(c, 1) >= 1)],
        ensures=[('back-off share of the context', lambda c: c.result == coeff(c, P(c, 1), x_of(c)))])

    # ---- the recursion over the suffixes
    def IND(c):
        return spec.V(c.eng, c.st, c.a('indices'), c.eng.mod.find_di_type('vector<int, std::allocator<int> >'))

    def tail(c, n, words):
        """key of the first `words` of the last n words"""
        w = IND(c)
        return store.keyof(c.eng, c.st, spec.velem(w.p, 4, w.size - n), 4 * words)

    def recur(c):
        return And(TP(0) == 0, forall(lambda n: (implies(And(n >= 1, n <= top(c), n <= IND(c).size), TP(n) == If(
            n > 1, TP(n - 1) * coeff(c, n, tail(c, n, n - 1)), z3.RealVal(0)) + prob(
                c, n, tail(c, n, n - 1), K(c).A(n, tail(c, n, n)))), TP(n))))

    def tptrs(eng, args, names, st):
        inst.knptrs(eng, args, names, st)
        this = args[names.index('this')]
        sym = '_ZTV%s' % {'bo_c': '16InterKn_int_discIi%sE', 'bo_3c': '17InterKn_int_disc3Ii%sE'}[inst.bot] % {'int': 'i', 'long': 'l'}[inst.ct]
        eng.ptrinfo[(this.region, this.path)] = 'vtable:%s+0' % sym
        return args

    till = lambda c: If(IND(c).size < top(c), IND(c).size, top(c))
    tp = Spec(
        kt + '::tableprob(std::vector<int, std::allocator<int>>&)', unit=U, ptrs=tptrs, exits=NOEXIT,
        requires=sound + [('words', lambda c: And(IND(c).size >= 1, IND(c).size < 2 ** 31)), ('recursion', recur)],
        ensures=[('the shorter probability times the back-off share, plus the discounted count', lambda c: c.result == TP(till(c)))],
        loops=[Loop([('suffixes so far', lambda c: And(1 <= c.v('n'), c.v('n') <= till(c) + 1, c.v('prob') == TP(c.v('n') - 1)))])])

    # ---- discounts
    def FV(c):
        return spec.V(c.eng, c.st, c.a('v'), c.eng.mod.find_di_type('vector<float, std::allocator<float> >'))

    def clamp(x, hi):
        return If(x < 0, z3.RealVal(0), If(x > hi, z3.RealVal(hi), x))

    def setd(c, n):
        if three:
            return forall(lambda o: (implies(And(1 <= o, o < n), And([
                d(c, o, j) == clamp(FV(c)[(o - 1) * 3 + j], j + 1) for j in range(3)])), d(c, o, 0)))
        return forall(lambda o: (implies(And(1 <= o, o < n), d(c, o) == clamp(FV(c)[o - 1], 1)), d(c, o)))

    fl = Spec(
        me + '::flatv2disc(std::vector<float, std::allocator<float>>&)', unit=U, ptrs=inst.knptrs, exits=NOEXIT,
        requires=[('a discount per order', lambda c: And(discs(c).size == top(c) + 1, top(c) >= 0, top(c) < 2 ** 20,
                                                         FV(c).size >= top(c) * (3 if three else 1)))],
        assigns=lambda c: [c.eng and discs(c).p],
        ensures=[('every discount is the one asked for, moved into its range', lambda c: setd(c, top(c) + 1)),
                 ('as many', lambda c: discs(c).size == top(c) + 1)],
        loops=[Loop([('so far', lambda c: And(1 <= c.v('i'), c.v('i') <= top(c) + 1, setd(c, c.v('i')), discs(c).size == top(c) + 1))])] + ([
            Loop([('so far', lambda c: And(1 <= c.v('i'), c.v('i') <= top(c), setd(c, c.v('i')), discs(c).size == top(c) + 1, 0 <= c.v('j'), c.v('j') <= 3,
                                           *[implies(c.v('j') > j, d(c, c.v('i'), j) == clamp(FV(c)[(c.v('i') - 1) * 3 + j], j + 1)) for j in range(3)]))])] if three else []))
    FT = lambda c: c.eng.mod.find_di_type('vector<float, std::allocator<float> >')
    CD = lambda c: spec.V(c.eng, c.st, c.a('cur_disc'), FT(c))
    RES = lambda c, nm='result': spec.V(c.eng, c.st, c.v(nm), FT(c))
    CC = lambda c: spec.V(c.eng, c.st, c.v('count_of_counts'), c.eng.mod.find_di_type('vector<%s, std::allocator<%s> >' % (inst.ct, inst.ct)))

    def inrange(c, w, i):
        return Or(w[i] == CD(c.old)[i], And(w[i] >= 0, w[i] <= i + 1))
    sizes = lambda c: And(CC(c).size == CD(c.old).size + 1, CD(c).size == CD(c.old).size)
    loo = Spec(
        kt + '::calculate_leaveoneout_discounts(int, std::vector<float, std::allocator<float>>)', unit=U, ptrs=inst.knptrs, exits=NOEXIT,
        requires=[('maps', lambda c: moc.wfc(K(c))), ('order', lambda c: And(c.a('order') >= 1, c.a('order') < 2 ** 20)), ('discounts', lambda c: And(CD(c).size >= 1, CD(c).size < 2 ** 20))],
        assigns=lambda c: store.stepframe() + [P(c, 0)],
        ensures=[('every discount is kept or in its range', lambda c: (lambda w: And(w.size == CD(c.old).size, forall(lambda i: (implies(
            And(0 <= i, i < w.size), inrange(c, w, i)), w[i]))))(spec.V(c.eng, c.st, P(c, 0), FT(c))))],
        loops=[Loop([('sizes', sizes), ('at an entry', lambda c: implies(c.a('order') < K(c).nc(), And(
            0 <= store.stepidx(c.eng, c.st) + 1, store.stepidx(c.eng, c.st) + 1 <= K(c).n(c.a('order')))))]),
            Loop([('sizes', lambda c: And(sizes(c), RES(c).size == CD(c.old).size, 0 <= c.v('i'), c.v('i') <= CD(c).size)),
                  ('so far', lambda c: forall(lambda i: (implies(And(0 <= i, i < RES(c).size), inrange(c, RES(c), i)), RES(c)[i])))])])

    def wsize(c):
        o2, t2 = c.eng.mod.di_members(c.eng.mod.find_di_type('Vocabulary'))['m_words']; o2 = e_off(c)
        return spec.V(c.eng, c.st, c.a('this').off(o2), t2).size
    nw = Spec('Vocabulary::num_words() const', unit=U, exits=NOEXIT, requires=[('size', lambda c: And(wsize(c) >= 0, wsize(c) < 2 ** 31))],
              ensures=[('number of words', lambda c: c.result == wsize(c))])
    r = ([nw] if three else []) + [L[k] for k in ['get', 'bget', 'bgetden'] + ([] if three else ['bgetnz'])]
    return r + [kp] + ([kc3] if three else []) + [kc, tp, fl, loo]


def configure(eng, spec):
    moc.hints(eng)


SPECS = []
for inst in (moc.Inst('int', 'bo_3c'), moc.Inst('long', 'bo_c')):
    SPECS += uses(inst)
HARNESS = 'c18.cc'
BOUNDED = 'random texts, orders, prunings and cutoffs on both smoothing classes: sums over the vocabulary, the formula, the exported model'
DECIDES = 'kn_prob, kn_coeff: the discounted estimate; lemma: the masses and the share of a context add up to one; tableprob: the recursion; discounts are moved into their range by flatv2disc and calculate_leaveoneout_discounts'
