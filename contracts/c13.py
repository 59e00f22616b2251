"""C13: hash-based models follow the recursion over their tables."""
import z3
import moc, spec, store
from moc import NOEXIT, P
from sym import Spec, Loop, Ptr, I, R, Ctx
from spec import forall, implies, And, Or, Not, If

U = 'unit:hash.cc'
H = 'HashGram_t<int>'
FLOOR = z3.RealVal(-60)
A1 = z3.ArraySort(I, I)
A2 = z3.ArraySort(I, A1)
A2R = z3.ArraySort(I, z3.ArraySort(I, R))
VEC = 'vector<int, std::allocator<int> >'
# recursion over tables (slots and values of the probabilities, of the weights) for the n-gram with key k
TAB = [A2, A2R, A2, A2R, I, I]
BO = z3.Function('backoff_recursion', *(TAB + [R]))
OBO = z3.Function('backoff_order', *(TAB + [I]))
IP = z3.Function('interpolation_recursion', *(TAB + [R]))
OIP = z3.Function('interpolation_order', *(TAB + [I]))
LAST = z3.Function('last_words', I, I, I, I)      # key of o words, o, n -> key of its last n words
SUF, PRE, KEYOF = store.SUF, store.PRE, store.KEYOF
UNF = z3.Function('unfold', I, I)


def stores(eng, this):
    d = eng.__dict__.setdefault('hashg', {})
    k = (this.region, this.path)
    if k not in d:
        Pr, pv = store.family(eng, this, H, 'probs')
        Pr.defv = FLOOR
        B, bv = store.family(eng, this, H, 'backoffs')
        d[k] = (Pr, B)
    return d[k]


def ptrs(eng, args, names, st):
    for nm in ('this', 'other'):
        if nm in names:
            p = args[names.index(nm)]
            stores(eng, p)
            eng.ptrinfo[(p.region, p.path)] = 'vtable:_ZTV10HashGram_tIiE'
    return args


class G:
    """one hash model in one state"""

    def __init__(self, c, this=None):
        self.c, self.this = c, this or c.a('this')
        self.Pr, self.B = stores(c.eng, self.this)
        self.o = c.obj(self.this, H)
        self.order = c.obj(self.this, 'NGram').m_order

    def cells(self):
        e, st = self.c.eng, self.c.st
        out = []
        for S in (self.Pr, self.B):
            r, p = S.cs()
            out.append(e.cell(st, r, p, I))
            (r, p), s = S.cf('')
            out.append(e.cell(st, r, p, s))
        return out

    def p(self, n, k):
        s = self.Pr.slot(self.c.st, (n,), k)
        return If(s >= 0, self.Pr.val(self.c.st, (n,), s), FLOOR)

    def b(self, n, k):
        s = self.B.slot(self.c.st, (n,), k)
        return If(s >= 0, self.B.val(self.c.st, (n,), s), z3.RealVal(0))

    def wf(self):
        e, st = self.c.eng, self.c.st
        m = self.order
        ax = lambda S: forall(lambda o: (implies(And(1 <= o, o <= m), And(
            S.n(st, (o,)) >= 0, S.n(st, (o,)) < 2 ** 31 - 2, S.keysize(st, (o,)) == 4 * o, S.default(st, (o,)) == S.zero(''))), S.n(st, (o,))))
        return And(m >= 1, m < 2 ** 20, self.o.probs.size == m + 1, self.o.backoffs.size == m + 1, ax(self.Pr), ax(self.B), self.maps())

    def maps(self):
        st = self.c.st
        m = self.order
        out = []
        for S in (self.Pr, self.B):
            out.append(forall(lambda o, s: (implies(And(1 <= o, o <= m, 0 <= s, s < S.n(st, (o,))), S.slot(st, (o,), S.key(st, (o,), s)) == s), S.key(st, (o,), s))))
            out.append(forall(lambda o, k: (implies(And(1 <= o, o <= m, S.slot(st, (o,), k) >= 0), And(
                S.slot(st, (o,), k) < S.n(st, (o,)), S.key(st, (o,), S.slot(st, (o,), k)) == k)), S.slot(st, (o,), k))))
        return And(*out)


def lvec(c, n):
    return spec.V(c.eng, c.st, c.v(n), c.eng.mod.find_di_type(VEC))


def words(c, nm='gram'):
    if nm not in [k for k, v in c.args]:
        return lvec(c, nm)
    return spec.V(c.eng, c.st, c.a(nm), c.eng.mod.find_di_type(VEC))


def arr(c, w):
    """the words as an array"""
    p = spec.velem(w.p, 4, z3.IntVal(0))
    return store.nsel(c.eng.cell(c.st, p.region, p.path, I), p.idx[:-1])


def tail(c, w, n):
    """key of the last n words"""
    return KEYOF(arr(c, w), w.size - n, 4 * n)


def tab(c, w, n, g=None):
    return (g or G(c)).cells() + [tail(c, w, n), n]


def get(Sl, Va, n, k, d):
    s = z3.Select(z3.Select(Sl, n), k)
    return If(s >= 0, z3.Select(z3.Select(Va, n), s), d)


CELLS = [z3.Const('ps', A2), z3.Const('pv', A2R), z3.Const('bs', A2), z3.Const('bv', A2R)]


def defn(eng, T, k, n):
    """definition of the recursions"""
    PS, PV, BS, BV = T
    p, b = get(PS, PV, n, k, FLOOR), get(BS, BV, n - 1, PRE(k, n), z3.RealVal(0))
    pw = eng.ufn('pow', R, R, R)
    ten = z3.RealVal(10)
    found = p > FLOOR
    t, u = T + [k, n], T + [SUF(k, n), n - 1]
    return implies(n >= 1, And(
        BO(*t) == If(found, p, If(n == 1, FLOOR, b + BO(*u))),
        OBO(*t) == If(found, n, If(n == 1, 1, OBO(*u))),
        IP(*t) == If(n == 1, z3.RealVal(0), IP(*u) * pw(ten, b)) + If(Or(n == 1, found), pw(ten, p), z3.RealVal(0)),
        OIP(*t) == If(Or(n == 1, found), n, OIP(*u))))


def unfold(eng):
    """UNF only steers the instantiation"""
    k, n = z3.Int('k'), z3.Int('n')
    a, b, m, l = z3.Const('a', A1), z3.Int('b'), z3.Int('m'), z3.Int('l')
    T = CELLS
    t = T + [k, n]
    FA = z3.ForAll
    return [FA(T + [k, n], defn(eng, T, k, n), patterns=[z3.MultiPattern(f(*t), UNF(n)) for f in (BO, OBO, IP, OIP)]),
            FA([n], UNF(n) == n, patterns=[UNF(n)]),
            FA(T + [k], And(IP(*(T + [k, z3.IntVal(0)])) == 0, OIP(*(T + [k, z3.IntVal(0)])) == 0), patterns=[IP(*(T + [k, z3.IntVal(0)]))]),
            # the keys of n words in memory
            FA([a, b, m, n], implies(And(m == 4 * n, n >= 1), And(
                PRE(KEYOF(a, b, m), n) == KEYOF(a, b, 4 * (n - 1)), SUF(KEYOF(a, b, m), n) == KEYOF(a, b + 1, 4 * (n - 1)))),
                patterns=[z3.MultiPattern(KEYOF(a, b, m), UNF(n))]),
            FA([a, b, m, n, l], implies(And(m == 4 * n, 0 <= l, l <= n), LAST(KEYOF(a, b, m), n, l) == KEYOF(a, b + n - l, 4 * l)),
               patterns=[LAST(KEYOF(a, b, m), n, l)])]


def same(T, T2, n):
    """the tables agree up to order n"""
    o, q = z3.Int('o?ag'), z3.Int('q?ag')
    f = And(get(T[0], T[1], o, q, FLOOR) == get(T2[0], T2[1], o, q, FLOOR), get(T[2], T[3], o, q, z3.RealVal(0)) == get(T2[2], T2[3], o, q, z3.RealVal(0)))
    g = And(get(T[0], T[1], o, q, FLOOR) == get(T2[0], T2[1], o, q, FLOOR))
    h = get(T[2], T[3], o, q, z3.RealVal(0)) == get(T2[2], T2[3], o, q, z3.RealVal(0))
    return And(z3.ForAll([o, q], implies(And(1 <= o, o <= n), g)), z3.ForAll([o, q], implies(And(1 <= o, o < n), h)))


def local(eng):
    """lemma: the recursion over n words depends on the probabilities of the orders up to n and the weights below n only"""
    T, T2 = CELLS, [z3.Const(str(x) + '2', x.sort()) for x in CELLS]
    k, n = z3.Int('k'), z3.Int('n')
    ok = implies(And(n >= 1, same(T, T2, n)), BO(*(T + [k, n])) == BO(*(T2 + [k, n])))
    return z3.ForAll(T + T2 + [k, n], ok, patterns=[z3.MultiPattern(BO(*(T + [k, n])), BO(*(T2 + [k, n])), LOC(k))])


def local_lemma(c):
    """its proof by induction over n"""
    e = c.eng
    T = [e.fresh('t', x.sort()) for x in CELLS]
    T2 = [e.fresh('t2', x.sort()) for x in CELLS]
    k, n = e.fresh('k'), e.fresh('n')
    base = c.old.st if False else c.st
    d = And(defn(e, T, k, n), defn(e, T2, k, n))
    hyp = implies(And(n >= 2, same(T, T2, n - 1)), BO(*(T + [SUF(k, n), n - 1])) == BO(*(T2 + [SUF(k, n), n - 1])))
    e.oblige(base, 'lemma', 'the recursion over n words depends on the tables up to order n only',
             implies(And(d, hyp, n >= 1, same(T, T2, n)), BO(*(T + [k, n])) == BO(*(T2 + [k, n]))))


def configure(eng, spec):
    eng.axioms.extend(unfold(eng))
    if spec in MIXING:
        eng.mulfun = True
        k = z3.Int('k')
        eng.axioms += [local(eng), z3.ForAll([k], LOC(k) == k, patterns=[LOC(k)])]
        x = z3.Real('x')
        lg = eng.ufn('log10', R, R)
        eng.axioms.append(z3.ForAll([x], implies(x > TINY, lg(x) > FLOOR), patterns=[lg(x)]))


def minord(c, w):
    return If(w.size < G(c).order, w.size, G(c).order)


def some(c):
    return And(words(c).size >= 1, words(c).size < 2 ** 30)


def lastord(c):
    return c.obj('this', 'NGram').m_last_order


def bo_inv(c):
    n, L = c.v('n'), c.v('looptill')
    return And(UNF(n) == n, UNF(L) == L, 1 <= n, n <= L, L == minord(c.old, words(c.old)),
               c.v('log_prob') + BO(*tab(c, words(c), n)) == BO(*tab(c, words(c), L)),
               OBO(*tab(c, words(c), n)) == OBO(*tab(c, words(c), L)), lastord(c) == 1)


MODEL = [('tables', lambda c: G(c).wf()), ('n-gram', some)]
ASG = lambda c: [c.obj('this', 'NGram').loc('m_last_order')]
helper = Spec(H + '::log_prob_bo_helper(std::vector<int, std::allocator<int>> const&)', unit=U, ptrs=ptrs, exits=NOEXIT, requires=MODEL, assigns=ASG,
              ensures=[('the back-off recursion over the tables', lambda c: c.result == BO(*tab(c, words(c), minord(c, words(c))))),
                       ('no truncation', lambda c: implies(words(c).size <= G(c).order, c.result == BO(*(G(c).cells() + [
                           KEYOF(arr(c, words(c)), z3.IntVal(0), 4 * words(c).size), words(c).size])))),
                       ('order of the longest suffix found', lambda c: lastord(c) == OBO(*tab(c, words(c), minord(c, words(c)))))],
              loops=[Loop([('so far', bo_inv)])], ghost=local_lemma)


TINY = z3.RealVal('1/1' + '0' * 60)
MIXING = []
LOC = z3.Function('local', I, I)


def slog(c, x):
    return If(x > TINY, c.eng.ufn('log10', R, R)(x), FLOOR)


def ip_inv(c):
    n, L = c.v('n'), c.v('looptill')
    return And(UNF(n) == n, 1 <= n, n <= L + 1, L == minord(c.old, words(c.old)),
               c.v('prob') == IP(*tab(c, words(c), n - 1)), lastord(c) == OIP(*tab(c, words(c), n - 1)))


ihelper = Spec(H + '::log_prob_i_helper(std::vector<int, std::allocator<int>> const&)', unit=U, ptrs=ptrs, exits=NOEXIT, requires=MODEL, assigns=ASG,
               ensures=[('the interpolation recursion over the tables', lambda c: c.result == slog(c, IP(*tab(c, words(c), minord(c, words(c)))))),
                        ('order of the longest suffix found', lambda c: lastord(c) == OIP(*tab(c, words(c), minord(c, words(c)))))],
               loops=[Loop([('so far', ip_inv)])])

WF = lambda c: G(c).wf()


def kept(c, lo, hi, what='Pb'):
    """tables of the orders lo..hi are those of the entry"""
    g, w = G(c), G(c.old)
    r = []
    if 'P' in what:
        r.append(forall(lambda o, k: (implies(And(lo <= o, o <= hi), g.p(o, k) == w.p(o, k)), g.Pr.slot(c.st, (o,), k))))
    if 'b' in what:
        r.append(forall(lambda o, k: (implies(And(lo <= o, o <= hi), g.b(o, k) == w.b(o, k)), g.B.slot(c.st, (o,), k))))
    return And(*r)


def asg(c, what='Pb'):
    g = G(c)
    return (g.Pr.assigns() if 'P' in what else []) + (g.B.assigns() if 'b' in what else [])


def pkey(c, w, off, n):
    return store.keyof(c.eng, c.st, spec.velem(w.p, 4, z3.IntVal(off)), 4 * n)


def setbo(c):
    g, w = G(c), G(c.old)
    x = words(c, 'prefix')
    k = pkey(c, x, 0, x.size)
    one = z3.RealVal(1)
    v = slog(c, (one - c.a('explicit_probsum')) / (one - c.a('full_bo_probsum')))
    return forall(lambda o, q: (implies(And(1 <= o, o <= g.order), g.b(o, q) == If(And(o == x.size, q == k), v, w.b(o, q))), g.B.slot(c.st, (o,), q)))


norm = Spec(H + '::normalize_and_set_bo(std::vector<int, std::allocator<int>>&, float, float)', unit=U, ptrs=ptrs, exits=NOEXIT,
            requires=[('tables', WF), ('context', lambda c: And(words(c, 'prefix').size >= 1, words(c, 'prefix').size < G(c).order))],
            assigns=lambda c: asg(c, 'b'),
            ensures=[('tables', WF), ('the weight of this context and no other', setbo)])


def clean(c, lo):
    g, w = G(c), G(c.old)
    return And(forall(lambda o, k: (implies(And(o > lo, o >= 2, o <= g.order), g.p(o, k) == If(w.p(o, k) <= FLOOR, FLOOR, w.p(o, k))), g.Pr.slot(c.st, (o,), k))),
               forall(lambda o, s: (implies(And(o > lo, o >= 2, o <= g.order, 0 <= s, s < g.Pr.n(c.st, (o,))), g.Pr.val(c.st, (o,), s) > FLOOR), g.Pr.val(c.st, (o,), s))))


rempty = Spec(H + '::remove_empty_grams()', unit=U, ptrs=ptrs, exits=NOEXIT, requires=[('tables', WF)], assigns=lambda c: asg(c, 'P'),
              ensures=[('tables', WF), ('exactly the n-grams at or below the floor are removed', lambda c: clean(c, 1)), ('words are kept', lambda c: kept(c, 1, 1, 'P'))],
              loops=[Loop([('tables', WF), ('range', lambda c: And(c.v('o') >= 1, c.v('o') <= G(c).order)),
                           ('higher orders are clean', lambda c: clean(c, c.v('o'))),
                           ('lower orders are as before', lambda c: kept(c, 1, c.v('o'), 'P'))]),
                     Loop([('tables', WF), ('range', lambda c: And(2 <= c.v('o'), c.v('o') <= G(c).order, c.v('i') >= -1, c.v('i') < G(c).Pr.n(c.st, (c.v('o'),)))),
                           ('higher orders are clean', lambda c: clean(c, c.v('o'))),
                           ('lower orders are as before', lambda c: kept(c, 1, c.v('o') - 1, 'P')),
                           ('this order down to here', lambda c: And(
                               forall(lambda k: (Or(G(c).p(c.v('o'), k) == G(c.old).p(c.v('o'), k), And(
                                   G(c).p(c.v('o'), k) == FLOOR, G(c.old).p(c.v('o'), k) <= FLOOR)), G(c).Pr.slot(c.st, (c.v('o'),), k))),
                               forall(lambda s: (implies(And(c.v('i') < s, s < G(c).Pr.n(c.st, (c.v('o'),))), G(c).Pr.val(c.st, (c.v('o'),), s) > FLOOR),
                                                 G(c).Pr.val(c.st, (c.v('o'),), s)))))])])
disp = [Spec(H + '::log_prob_%s(std::vector<int, std::allocator<int>> const&)' % x, unit=U, ptrs=ptrs, exits=NOEXIT, requires=MODEL, assigns=ASG, ensures=h.ensures)
        for x, h in (('bo', helper), ('i', ihelper))]


def pres(c, lo, g=None):
    """every context of a stored n-gram of an order above lo is stored"""
    g, st = G(c), c.st
    return forall(lambda o, s: (implies(And(o > lo, o >= 2, o <= g.order, 0 <= s, s < g.Pr.n(st, (o,))), g.Pr.slot(st, (o - 1,), store.PRE(g.Pr.key(st, (o,), s), o)) >= 0),
                                g.Pr.key(st, (o,), s)))


def step(c):
    return store.stepidx(c.eng, c.st)


def pres1(c):
    g, st, o = G(c), c.st, c.v('o')
    return forall(lambda s: (implies(And(0 <= s, s <= step(c)), g.Pr.slot(st, (o - 1,), store.PRE(g.Pr.key(st, (o,), s), o)) >= 0), g.Pr.key(st, (o,), s)))


zero = Spec(H + '::add_zeroprob_grams()', unit=U, ptrs=ptrs, exits=NOEXIT, requires=[('tables', WF)],
            assigns=lambda c: asg(c, 'P') + store.stepframe() + [c.obj('this', 'HashGram').loc('m_print_zerograms')],
            ensures=[('tables', WF), ('no probability changes', lambda c: kept(c, 1, G(c).order, 'P')),
                     ('contexts of stored n-grams are stored', lambda c: pres(c, 1)),
                     ('they are to be written', lambda c: Or(G(c).order == 1, c.obj('this', 'HashGram').m_print_zerograms != 0))],
            loops=[Loop([('tables', WF), ('range', lambda c: And(c.v('o') >= 1, c.v('o') <= G(c).order)),
                         ('no probability changes', lambda c: kept(c, 1, G(c).order, 'P')),
                         ('written', lambda c: Or(c.v('o') == G(c).order, c.obj('this', 'HashGram').m_print_zerograms != 0)),
                         ('higher orders are closed', lambda c: pres(c, c.v('o')))]),
                   Loop([('tables', WF), ('range', lambda c: And(2 <= c.v('o'), c.v('o') <= G(c).order, words(c).size == c.v('o'))),
                         ('step', lambda c: And(step(c) >= -1, step(c) < G(c).Pr.n(c.st, (c.v('o'),)))),
                         ('no probability changes', lambda c: kept(c, 1, G(c).order, 'P')),
                         ('written', lambda c: c.obj('this', 'HashGram').m_print_zerograms != 0),
                         ('higher orders are closed', lambda c: pres(c, c.v('o'))),
                         ('this order up to here', pres1)])])

def ordfree(c):
    """probabilities of two or more words are those of the entry"""
    return And(kept(c, 2, G(c).order, 'P'), implies(c.a('order') != 1, kept(c, 1, 1, 'P')))


def rloop(*more):
    return [('tables', WF), ('lengths', lambda c: And(words(c).size == c.a('order'), lvec(c, 'cur_prefix').size == c.a('order') - 1)),
            ('probabilities of two or more words', ordfree), ('weights of other orders', otherbo)] + list(more)


def otherbo(c):
    g, w = G(c), G(c.old)
    return forall(lambda o, k: (implies(And(1 <= o, o <= g.order, o != c.a('order') - 1), g.b(o, k) == w.b(o, k)), g.B.slot(c.st, (o,), k)))


IN = ('range', lambda c: c.v('i') >= 0)
renorm = Spec(H + '::renormalize_backoffs(int)', unit=U, ptrs=ptrs, exits=NOEXIT,
              requires=[('tables', WF), ('order', lambda c: And(c.a('order') >= 1, c.a('order') <= G(c).order))],
              assigns=lambda c: asg(c) + store.stepframe() + store.orderedframe() + ASG(c),
              ensures=[('tables', WF), ('probabilities of two or more words are untouched', ordfree), ('weights of other orders are untouched', otherbo)],
              loops=[Loop(rloop(IN)), Loop(rloop()), Loop(rloop(IN)), Loop(rloop(IN)), Loop(rloop(IN)), Loop(rloop())])


def O(c):
    return G(c, c.a('other'))


def mix(c, o, k):
    """average of the probabilities of k in the two models at the start"""
    w, u = G(c.old), O(c.old)
    pw, ten, l = c.eng.ufn('pow', R, R, R), z3.RealVal(10), c.a('lambda')
    L = If(o < u.order, o, u.order)
    return c.eng.rmul(l, pw(ten, BO(*(w.cells() + [k, o])))) + c.eng.rmul(1 - l, pw(ten, BO(*(u.cells() + [LAST(k, o, L), L]))))


def stored(g, o, k):
    return And(o <= g.order, g.Pr.slot(g.c.st, (o,), k) >= 0)


def either(c):
    w, u = G(c.old), O(c.old)
    f = lambda g: forall(lambda o, k: (implies(And(1 <= o, stored(g, o, k)), And(UNF(o) == o, mix(c, o, k) > TINY)), g.Pr.slot(g.c.st, (o,), k)))
    return And(f(w), f(u))


def above(g):
    return forall(lambda o, s: (implies(And(1 <= o, o <= g.order, 0 <= s, s < g.Pr.n(g.c.st, (o,))), g.Pr.val(g.c.st, (o,), s) > FLOOR), g.Pr.val(g.c.st, (o,), s)))


def averaged(c, lo):
    """above order lo every n-gram stored in either model has the average, no other is stored"""
    g, w, u = G(c), G(c.old), O(c.old)
    return forall(lambda o, k: (implies(And(o > lo, o >= 1, o <= g.order), g.p(o, k) == If(
        Or(stored(w, o, k), stored(u, o, k)), slog(c, mix(c, o, k)), FLOOR)), g.Pr.slot(c.st, (o,), k)))


def first(c):
    """the own n-grams of order o up to here"""
    g, w, o, st = G(c), G(c.old), c.v('o'), c.st
    return And(forall(lambda k: (g.Pr.slot(st, (o,), k) == w.Pr.slot(c.old.st, (o,), k), g.Pr.slot(st, (o,), k))),
               forall(lambda s: (implies(And(0 <= s, s < g.Pr.n(st, (o,))), g.Pr.key(st, (o,), s) == w.Pr.key(c.old.st, (o,), s)), g.Pr.key(st, (o,), s))),
               g.Pr.n(st, (o,)) == w.Pr.n(c.old.st, (o,)),
               forall(lambda s: (implies(And(0 <= s, s < g.Pr.n(st, (o,))), g.Pr.val(st, (o,), s) == If(
                   s <= step(c), slog(c, mix(c, o, g.Pr.key(st, (o,), s))), w.Pr.val(c.old.st, (o,), s))), g.Pr.val(st, (o,), s))))


def second(c, part):
    """the n-grams of the other model up to here have joined"""
    g, w, u, o = G(c), G(c.old), O(c.old), c.v('o')
    own = lambda k: stored(w, o, k)
    sl = lambda k: u.Pr.slot(c.old.st, (o,), k)
    if part == 0:
        f = lambda k: implies(own(k), g.p(o, k) == slog(c, mix(c, o, k)))
    elif part == 1:
        f = lambda k: implies(And(Not(own(k)), sl(k) >= 0, sl(k) <= step(c)), g.p(o, k) == slog(c, mix(c, o, k)))
    else:
        f = lambda k: implies(And(Not(own(k)), Or(sl(k) < 0, sl(k) > step(c))), g.p(o, k) == FLOOR)
    return forall(lambda k: (f(k), g.Pr.slot(c.st, (o,), k)))


def raw(c, hi):
    """the probabilities of the orders up to hi have not been touched"""
    g, w, st, od = G(c), G(c.old), c.st, c.old.st
    r = lambda o: And(1 <= o, o <= hi)
    return And(forall(lambda o: (implies(r(o), g.Pr.n(st, (o,)) == w.Pr.n(od, (o,))), g.Pr.n(st, (o,)))),
               forall(lambda o, k: (implies(r(o), g.Pr.slot(st, (o,), k) == w.Pr.slot(od, (o,), k)), g.Pr.slot(st, (o,), k))),
               forall(lambda o, k: (implies(r(o), g.Pr.key(st, (o,), k) == w.Pr.key(od, (o,), k)), g.Pr.key(st, (o,), k))),
               forall(lambda o, k: (implies(r(o), g.Pr.val(st, (o,), k) == w.Pr.val(od, (o,), k)), g.Pr.val(st, (o,), k))))


FI = [('tables', WF), ('weights', lambda c: kept(c, 1, G(c).order, 'b')), ('lower orders', lambda c: raw(c, c.v('o') - 1)),
      ('range', lambda c: And(c.v('o') <= G(c).order, c.v('o') >= 1, UNF(c.v('o')) == c.v('o')))]
def shorter(c):
    o = c.v('o')
    return forall(lambda k: (implies(And(o >= 2, LOC(k) == k), BO(*(G(c).cells() + [k, o - 1])) == BO(*(G(c.old).cells() + [k, o - 1]))), BO(*(G(c).cells() + [k, o - 1]))))


fake = Spec(H + '::fake_interpolate(HashGram_t<int>&, float)', unit=U, ptrs=ptrs,
            exits=lambda c: Or(c.obj('this', 'NGram').m_type != 0, c.obj('other', 'NGram').m_type != 0),
            requires=[('tables', WF), ('tables of the other model', lambda c: O(c).wf()), ('the other model is not longer', lambda c: O(c).order <= G(c).order),
                      ('no zero-probability n-grams', lambda c: And(above(G(c)), above(O(c)))), ('averages above the floor', either)],
            assigns=lambda c: asg(c) + store.stepframe() + store.orderedframe() + ASG(c) + [c.obj('other', 'NGram').loc('m_last_order')],
            ensures=[('tables', WF), ('an n-gram of two or more words stored in either model gets the average, no other is stored', lambda c: averaged(c, 1))],
            loops=[Loop([('the order stays', lambda c: And(c.obj('this', 'NGram').m_order == c.old.obj('this', 'NGram').m_order,
                                                         c.v('max_order') == c.obj('this', 'NGram').m_order)), ('tables', WF)]),
                   Loop(FI[:2] + [('range', lambda c: And(c.v('o') <= G(c).order, c.v('o') >= 0)), ('lower orders', lambda c: raw(c, c.v('o'))),
                                  ('done', lambda c: averaged(c, c.v('o')))]),
                   Loop(FI + [('words', lambda c: words(c).size == c.v('o')), ('done', lambda c: averaged(c, c.v('o'))), ('step', lambda c: And(step(c) >= -1, step(c) < G(c).Pr.n(c.st, (c.v('o'),)))),
                              ('this order', first)]),
                   Loop(FI + [('shorter n-grams', shorter), ('words', lambda c: words(c).size == c.v('o')), ('done', lambda c: averaged(c, c.v('o'))), ('step', lambda c: And(step(c) >= -1, step(c) < O(c).Pr.n(c.st, (c.v('o'),)))),
                              ('own n-grams', lambda c: second(c, 0)), ('joined n-grams', lambda c: second(c, 1)), ('other n-grams', lambda c: second(c, 2))]),
                   Loop([('tables', WF), ('range', lambda c: And(c.v('o') >= 1, c.v('o') <= G(c).order + 1)), ('averaged', lambda c: averaged(c, 1))])])
MIXING.append(fake)
SPECS = [helper, ihelper, norm, rempty, zero, renorm, fake] + disp
HARNESS = 'c13.cc'
BOUNDED = 'random ARPA files (empty orders, values at the floor, positive weights) on both key types: every query against the recursion, tree against hash, rewriting, adding and removing zero-probability n-grams, mixing'
BOUNDED_FUNCTIONS = ['HashGram_t::read_real, write_real', 'HashGram_t<unsigned short>', 'HashGram_t::fake_interpolate growing the shorter model']
DECIDES = ('log_prob_bo, log_prob_i: the recursions and the order found, over the tables as maps; remove_empty_grams and add_zeroprob_grams leave '
           'every probability; fake_interpolate: the weighted average for every n-gram stored in either model')
