"""Shared vocabulary for the count classes (MultiOrderCounts and the smoothing classes on top)."""
import z3
import store
from sym import Spec, Loop, Ptr, I, R, Ctx
from spec import forall, implies, And, Or, Not, If, V

NOEXIT = lambda c: z3.BoolVal(False)


class Inst:
    """one instantiation <int, CT, BOT>"""

    def __init__(self, ct, bot):
        self.ct, self.bot = ct, bot
        self.base = 'MultiOrderCounts<int, %s>' % ct
        self.bo = 'MultiOrderCounts_counter_types::%s<%s>' % (bot, ct)
        self.gen = 'MultiOrderCounts_Generic_BOT<int, %s, %s>' % (ct, self.bo)
        # spelling of the debug info
        self.digen = 'MultiOrderCounts_Generic_BOT<int, %s, %s >' % (ct, self.bo)

    def stores(self, eng, this):
        key = ('moc', this.region, this.path)
        d = eng.__dict__.setdefault('mocs', {})
        if key not in d:
            C, cv = store.family(eng, this, self.base, 'm_counts')
            B, bv = store.family(eng, this, self.digen, 'm_backoffs')
            d[key] = (C, B)
        return d[key]

    def ptrs(self, eng, args, names, st):
        self.stores(eng, args[names.index('this')])
        return args

    def dyn(self):
        """virtual tables of the class the smoothing class creates"""
        nz = '1nzer' if self.bot == 'bo_c' else '3nzer'
        return '_ZTV22MultiOrderCounts_%sIi%sE' % (nz, {'int': 'i', 'long': 'l'}[self.ct])

    def kn(self):
        return 'InterKn_int_disc%s<int, %s>' % ('' if self.bot == 'bo_c' else '3', self.ct)

    def knptrs(self, eng, args, names, st):
        """*this is a smoothing object, its counts the object it constructs"""
        this = args[names.index('this')]
        off, t = eng.mod.di_members(eng.mod.find_di_type('InterKn_t<int, %s>' % self.ct))['moc']
        p = Ptr('moc', (0,))
        st.cells[(this.region, this.off(off).path)] = p
        for g in range(4):
            q = p.off(8 * g)
            eng.ptrinfo[(q.region, q.path)] = 'vtable:%s+%d' % (self.dyn(), g)
        self.stores(eng, p)
        return args

    def allocptrs(self, eng, args, names, st):
        this = args[names.index('this')]
        store.creating(eng)
        for S in self.stores(eng, this):
            store.nullables(eng, S)
        for g in range(4):
            q = this.off(8 * g)
            eng.ptrinfo[(q.region, q.path)] = 'vtable:%s+%d' % (self.dyn(), g)
        return args

    def K(self, c):
        """the counts of a smoothing object"""
        return View(self, c, Ptr('moc', (0,)))

    def M(self, c, this=None):
        return View(self, c, this or c.a('this'))


class View:
    """the counts of *this in one state"""

    def __init__(self, inst, c, this):
        self.i, self.c, self.this = inst, c, this
        self.C, self.B = inst.stores(c.eng, this)
        self.o = c.obj(this, inst.digen)
        self.ob = c.obj(this, inst.base)

    def nc(self):
        return self.ob.m_counts.size

    def nb(self):
        return self.o.m_backoffs.size

    def n(self, o):
        return self.C.n(self.c.st, (o,))

    def key(self, o, s):
        return self.C.key(self.c.st, (o,), s)

    def cnt(self, o, s):
        return self.C.val(self.c.st, (o,), s)

    def bn(self, o):
        return self.B.n(self.c.st, (o,))

    def bkey(self, o, s):
        return self.B.key(self.c.st, (o,), s)

    def b(self, nm, o, s):
        """field of a back-off entry; nm is 'den', 'prune_den', 'nzer' or ('nzer', j)"""
        if isinstance(nm, tuple):
            return z3.Select(self.B.val(self.c.st, (o,), s, nm[0]), nm[1])
        return self.B.val(self.c.st, (o,), s, nm)

    # ---- whole stores as arrays over the slots
    def ks(self, o):
        r, p = self.C.ck()
        return z3.Select(self.c.eng.cell(self.c.st, r, p, I), o)

    def vs(self, o):
        (r, p), s = self.C.cf('')
        return z3.Select(self.c.eng.cell(self.c.st, r, p, s), o)

    # ---- the stores as maps from keys to values
    def slot(self, o, k):
        return self.C.slot(self.c.st, (o,), k)

    def bslot(self, o, k):
        return self.B.slot(self.c.st, (o,), k)

    def A(self, o, k):
        """count of the n-gram k of order o (0 when absent)"""
        return If(And(1 <= o, o < self.nc(), self.slot(o, k) >= 0), self.cnt(o, self.slot(o, k)), 0)

    def Bf(self, f, o, k):
        """statistic f of the context k of the n-grams of order o"""
        return If(o == 1, self.uni(f), If(And(2 <= o, o < self.nb(), self.bslot(o, k) >= 0), self.b(f, o, self.bslot(o, k)), 0))

    def uni(self, nm):
        return fld(self.o.m_uni_bo, nm)

    def names(self):
        r = []
        for k, (suf, s) in sorted(self.B.fields.items()):
            if len(suf) == 1:
                r.append(k)
            else:
                r += [(k, j) for j in range(3)]
        return r


def fld(o, nm):
    if isinstance(nm, tuple):
        return getattr(o, nm[0])[nm[1]]
    return getattr(o, nm)


def sizes(v):
    return And(v.nc() >= 0, v.nc() < 2 ** 30, v.nb() >= 0, v.nb() < 2 ** 30,
               forall(lambda o: (implies(And(1 <= o, o < v.nc()), And(v.n(o) >= 0, v.n(o) < 2 ** 31 - 2)), v.n(o))),
               forall(lambda o: (implies(And(2 <= o, o < v.nb()), And(v.bn(o) >= 0, v.bn(o) < 2 ** 31 - 2)), v.bn(o))))


def wfc(v, hi=None):
    """the count stores (of the orders below hi) are maps over keys of the right length"""
    if hi is not None:
        v = Upto(v, hi)
    return And(v.nc() >= 0, v.nc() < 2 ** 30,
               forall(lambda o: (implies(And(1 <= o, o < v.nc()), And(v.n(o) >= 0, v.n(o) < 2 ** 31 - 3)), v.n(o))),
               forall(lambda o: (implies(And(1 <= o, o < v.nc()), v.C.keysize(v.c.st, (o,)) == 4 * o), v.C.keysize(v.c.st, (o,)))),
               *[forall(lambda o: (implies(And(1 <= o, o < v.nc()), v.C.default(v.c.st, (o,), f) == v.C.zero(f)), v.C.default(v.c.st, (o,), f)))
                 for f in v.C.fields],
               forall(lambda o, s: (implies(And(1 <= o, o < v.nc(), 0 <= s, s < v.n(o)), v.slot(o, v.key(o, s)) == s), v.key(o, s))),
               forall(lambda o, k: (implies(And(1 <= o, o < v.nc(), v.slot(o, k) >= 0), And(
                   v.slot(o, k) < v.n(o), v.key(o, v.slot(o, k)) == k)), v.slot(o, k))))


class Upto:
    """the view with the stores of the orders below hi only"""

    def __init__(self, v, hi):
        self.v, self.hi = v, hi

    def nc(self):
        return self.hi

    nb = nc

    def __getattr__(self, a):
        return getattr(self.v, a)


def zerobo(v):
    """the statistics a new context starts with"""
    b = v.c.obj(v.o.loc('bo_init'), '%s<%s>' % (v.i.bot, v.i.ct))
    return And([fld(b, f) == 0 for f in v.names()])


def wfb(v, hi=None):
    if hi is not None:
        v = Upto(v, hi)
    return And(zerobo(v), v.nb() >= 0, v.nb() < 2 ** 30,
               forall(lambda o: (implies(And(2 <= o, o < v.nb()), And(v.bn(o) >= 0, v.bn(o) < 2 ** 31 - 3)), v.bn(o))),
               forall(lambda o: (implies(And(2 <= o, o < v.nb()), v.B.keysize(v.c.st, (o,)) == 4 * (o - 1)), v.B.keysize(v.c.st, (o,)))),
               *[forall(lambda o: (implies(And(2 <= o, o < v.nb()), v.B.default(v.c.st, (o,), f) == v.B.zero(f)), v.B.default(v.c.st, (o,), f)))
                 for f in v.B.fields],
               forall(lambda o, s: (implies(And(2 <= o, o < v.nb(), 0 <= s, s < v.bn(o)), v.bslot(o, v.bkey(o, s)) == s), v.bkey(o, s))),
               forall(lambda o, k: (implies(And(2 <= o, o < v.nb(), v.bslot(o, k) >= 0), And(
                   v.bslot(o, k) < v.bn(o), v.bkey(o, v.bslot(o, k)) == k)), v.bslot(o, k))))


def ckey(c, p, o):
    """key of the n-gram of order o at p"""
    p = c.a(p) if isinstance(p, str) else p
    return store.keyof(c.eng, c.st, p, 4 * o)


def bkey(c, p, o):
    """key of the context of an n-gram of order o at p"""
    p = c.a(p) if isinstance(p, str) else p
    return store.keyof(c.eng, c.st, p, 4 * (o - 1))


def others(v, w, o):
    """the stores of all orders but o are the same, slot for slot"""
    return And([forall(lambda p: (implies(And(1 <= p, p < w.nc(), p != o), f(v)(p) == f(w)(p)), f(v)(p)))
                for f in (lambda x: x.n, lambda x: x.ks, lambda x: x.vs)])


def same_counts(v, w):
    return forall(lambda o, k: (implies(1 <= o, v.A(o, k) == w.A(o, k)), v.slot(o, k)))


def upd_counts(v, w, o, key, new):
    return And(v.A(o, key) == new,
               forall(lambda k: (implies(k != key, v.A(o, k) == w.A(o, k)), v.slot(o, k))),
               forall(lambda p, k: (implies(And(1 <= p, p != o), v.A(p, k) == w.A(p, k)), v.slot(p, k))))


def upd_bo(v, w, o, key, new):
    """new: field -> value"""
    return And([And(v.Bf(f, o, key) == new(f),
                    implies(o >= 2, v.uni(f) == w.uni(f)),
                    forall(lambda k: (implies(And(2 <= o, k != key), v.Bf(f, o, k) == w.Bf(f, o, k)), v.bslot(o, k))),
                    forall(lambda p, k: (implies(And(2 <= p, p != o), v.Bf(f, p, k) == w.Bf(f, p, k)), v.bslot(p, k))))
                for f in v.names()])


U = 'unit:moc.cc'


def P(c, i):
    """i-th parameter (0 = this)"""
    return list(c.args)[i][1] if not isinstance(c.args, dict) else list(c.args.values())[i]


def ksz(S):
    p = S.base.off(S.o_key)
    return Ptr(p.region, p.path)


def dfl(S):
    d = S.base.off(S.o_def).deref()
    return Ptr(d.region, d.path[:-1])


def frame(v):
    return [v.ob.loc('m_counts'), v.ob.loc('hashsize'), v.o.loc('m_backoffs')] + v.o.locs('m_uni_bo') + \
        v.C.assigns() + v.B.assigns() + [ksz(v.C), ksz(v.B), dfl(v.C), dfl(v.B)]


def layer(inst):
    """the count classes as maps: name -> Spec"""
    V = inst.M
    S = {}

    def room(c):
        v = V(c)
        return And(forall(lambda o: (implies(And(1 <= o, o < v.nc()), v.n(o) < 2 ** 31 - 16), v.n(o))))

    def broom(c):
        v = V(c)
        return And(forall(lambda o: (implies(And(2 <= o, o < v.nb()), v.bn(o) < 2 ** 31 - 16), v.bn(o))))

    CF = lambda c: [V(c).ob.loc('m_counts'), V(c).ob.loc('hashsize')] + V(c).C.assigns() + [ksz(V(c).C), dfl(V(c).C)]
    BF = lambda c: [V(c).o.loc('m_backoffs'), V(c).ob.loc('hashsize')] + V(c).B.assigns() + [ksz(V(c).B), dfl(V(c).B)]

    WFC, WFB = ('count stores are maps', lambda c: wfc(V(c))), ('context stores are maps', lambda c: wfb(V(c)))
    def nocount(c):
        return c.old.ld(V(c.old).ob.loc('vocabsize')) == 0

    def added(c, hi):
        v, w = V(c), V(c.old)
        return And(others(v, w, -1),
                   forall(lambda o, k: (implies(And(1 <= o, o < hi), v.A(o, k) == w.A(o, k)), v.slot(o, k))),
                   forall(lambda o: (implies(And(1 <= o, w.nc() <= o, o < hi), v.n(o) == 0), v.n(o))))

    def badded(c, hi):
        v, w = V(c), V(c.old)
        return And(*[forall(lambda o, k: (implies(And(2 <= o, o < hi), v.Bf(f, o, k) == w.Bf(f, o, k)), v.bslot(o, k))) for f in v.names()],
                   forall(lambda o: (implies(And(2 <= o, o < w.nb()), v.bn(o) == w.bn(o)), v.bn(o))),
                   forall(lambda o: (implies(And(2 <= o, w.nb() <= o, o < hi), v.bn(o) == 0), v.bn(o))))

    def none_from(c, S, i, n):
        return forall(lambda p: (implies(And(i <= p, p < n), store.null(c.eng, c.st, S, (p,))), store.nullv(c.eng, c.st, S, (p,))))

    S['alloc_c'] = Spec(
        inst.base + '::allocate_matrices_counts(int)', unit=U, assigns=CF, ptrs=inst.allocptrs,
        exits=nocount,
        requires=[WFC, ('order', lambda c: And(1 <= P(c, 1), P(c, 1) < 2 ** 20))],
        loops=[Loop([('positions', lambda c: And(c.v('i') >= 1, c.v('i') >= V(c.old).nc(), c.v('i') <= P(c, 1) + 1, V(c).nc() == P(c, 1) + 1)),
                     ('the rest holds no store', lambda c: none_from(c, V(c).C, c.v('i'), P(c, 1) + 1)),
                     ('maps so far', lambda c: wfc(V(c), c.v('i'))),
                     ('only empty stores are added', lambda c: added(c, c.v('i')))])],
        ensures=[('only empty stores are added', lambda c: And(
            V(c).nc() == If(P(c, 1) < V(c.old).nc(), V(c.old).nc(), P(c, 1) + 1), wfc(V(c)), same_counts(V(c), V(c.old)),
            others(V(c), V(c.old), -1),
            forall(lambda o: (implies(And(1 <= o, V(c.old).nc() <= o, o < V(c).nc()), V(c).n(o) == 0), V(c).n(o)))))])
    S['alloc_b'] = Spec(
        inst.gen + '::allocate_matrices_backoffs(int)', unit=U, assigns=BF, ptrs=inst.allocptrs,
        exits=nocount,
        requires=[WFB, ('order', lambda c: And(1 <= P(c, 1), P(c, 1) < 2 ** 20))],
        loops=[Loop([('positions', lambda c: And(c.v('i') >= 2, c.v('i') >= V(c.old).nb(), c.v('i') <= P(c, 1) + 1, V(c).nb() == P(c, 1) + 1)),
                     ('the rest holds no store', lambda c: none_from(c, V(c).B, c.v('i'), P(c, 1) + 1)),
                     ('maps so far', lambda c: wfb(V(c), c.v('i'))),
                     ('only empty stores are added', lambda c: badded(c, c.v('i')))])],
        ensures=[('only empty stores are added', lambda c: And(
            V(c).nb() == If(P(c, 1) < V(c.old).nb(), V(c.old).nb(), P(c, 1) + 1), wfb(V(c)),
            *[forall(lambda o, k: (implies(2 <= o, V(c).Bf(f, o, k) == V(c.old).Bf(f, o, k)), V(c).bslot(o, k))) for f in V(c).names()],
            forall(lambda o: (implies(And(2 <= o, o < V(c.old).nb()), V(c).bn(o) == V(c.old).bn(o)), V(c).bn(o))),
            forall(lambda o: (implies(And(2 <= o, V(c.old).nb() <= o, o < V(c).nb()), V(c).bn(o) == 0), V(c).bn(o)))))])

    def ctr(fn, new, extra=[], assigns=CF, res=None, req=[]):
        return Spec(
            inst.base + '::' + fn, unit=U, ptrs=inst.ptrs, exits=NOEXIT,
            requires=[WFC, ('room', room), ('order', lambda c: And(1 <= P(c, 1), P(c, 1) < 2 ** 20))] + req,
            assigns=assigns,
            ensures=[WFC, ('stores grow by at most one entry', lambda c: forall(lambda o: (implies(And(
                1 <= o, o < V(c).nc()), V(c).n(o) <= If(o < V(c.old).nc(), V(c.old).n(o), 0) + If(o == P(c, 1), 1, 0)), V(c).n(o)))),
                ('the order exists', lambda c: V(c).nc() == If(P(c, 1) < V(c.old).nc(), V(c.old).nc(), P(c, 1) + 1)),
                ('other orders stay slot for slot', lambda c: others(V(c), V(c.old), P(c, 1))),
                ('the count of the n-gram changes, no other', lambda c: upd_counts(
                    V(c), V(c.old), P(c, 1), ckey(c.old, P(c, 2), P(c, 1)), new(c)))] +
            ([('result', lambda c: c.result == new(c))] if res else []) + extra)

    add = lambda c: V(c.old).A(P(c, 1), ckey(c.old, P(c, 2), P(c, 1))) + P(c, 3)
    addi = lambda c: V(c.old).A(P(c, 1), ckey(c.old, P(c, 2), P(c, 1))) + P(c, 3)
    S['inc'] = ctr('IncrementCount(int, int const*, %s)' % inst.ct, add, res=True)
    S['incc'] = ctr('IncrementCountCache(int, int const*, %s)' % inst.ct, addi, res=True,
                    assigns=lambda c: CF(c) + [V(c).ob.loc('c_cache')], req=[
                        ('room in the cache', lambda c: V(c).ob.c_cache.size < 2 ** 31 - 16)],
                    extra=[('one entry more in the cache', lambda c: V(c).ob.c_cache.size == V(c.old).ob.c_cache.size + 1)])
    S['set'] = ctr('SetCount(int, int const*, %s)' % inst.ct, lambda c: P(c, 3))
    S['get'] = Spec(
        inst.base + '::GetCount(int, int const*)', unit=U, ptrs=inst.ptrs, exits=NOEXIT,
        requires=[WFC, ('order', lambda c: 1 <= P(c, 1))],
        ensures=[('the count of the n-gram', lambda c: c.result == V(c).A(P(c, 1), ckey(c, P(c, 2), P(c, 1))))])

    B = '%s<%s>' % (inst.bot, inst.ct)

    def btr(fn, new, res=None, req=[], assigns=BF, extra=[]):
        return Spec(
            inst.gen + '::' + fn, unit=U, ptrs=inst.ptrs, exits=NOEXIT,
            requires=[WFB, ('room', broom), ('order', lambda c: And(1 <= P(c, 1), P(c, 1) < 2 ** 20))] + req,
            assigns=lambda c: assigns(c) + V(c).o.locs('m_uni_bo'),
            ensures=[WFB, ('stores grow by at most one entry', lambda c: forall(lambda o: (implies(And(
                2 <= o, o < V(c).nb()), V(c).bn(o) <= If(o < V(c.old).nb(), V(c.old).bn(o), 0) + If(o == P(c, 1), 1, 0)), V(c).bn(o)))),
                ('no orders beyond', lambda c: And(V(c).nb() >= V(c.old).nb(), Or(V(c).nb() == V(c.old).nb(), V(c).nb() == P(c, 1) + 1))),
                ('the statistics of the context change, no other', lambda c: upd_bo(
                    V(c), V(c.old), P(c, 1), bkey(c.old, P(c, 2), P(c, 1)), lambda f: new(c, f)))] + extra)

    def old(c, f):
        return V(c.old).Bf(f, P(c, 1), bkey(c.old, P(c, 2), P(c, 1)))
    badd = lambda c, f: old(c, f) + fld(c.old.obj(P(c, 3), B), f)
    S['binc'] = btr('IncrementBackoff(int, int const*, %s const*)' % inst.bo, badd)
    S['bincc'] = btr('IncrementBackoffCache(int, int const*, %s const*)' % inst.bo, badd,
                     req=[('room in the cache', lambda c: V(c).o.bo_cache.size < 2 ** 31 - 16)],
                     assigns=lambda c: BF(c) + [V(c).o.loc('bo_cache')],
                     extra=[('one entry more in the cache', lambda c: V(c).o.bo_cache.size == V(c.old).o.bo_cache.size + 1)])
    S['bset'] = btr('SetBackoff(int, int const*, %s const*)' % inst.bo, lambda c, f: fld(c.old.obj(P(c, 3), B), f))
    S['bden'] = btr('IncrementBackoffDen(int, int const*, %s)' % inst.ct, lambda c, f: old(c, f) + (P(c, 3) if f == 'den' else 0))
    S['bnz'] = btr('IncrementBackoffNzer_1nzer(int, int const*, %s)' % inst.ct, lambda c, f: old(c, f) + (P(c, 3) if f == 'nzer' else 0)) \
        if inst.bot == 'bo_c' else \
        btr('IncrementBackoffNzer_3nzer(int, int const*, int, %s)' % inst.ct, lambda c, f: old(c, f) + (
            If(P(c, 3) == f[1], P(c, 4), 0) if isinstance(f, tuple) else 0), req=[
            ('a class', lambda c: And(0 <= P(c, 3), P(c, 3) <= 2)), ('the store exists', lambda c: Or(P(c, 1) == 1, P(c, 1) < V(c).nb()))])
    S['bgetden'] = Spec(
        inst.gen + '::GetBackoffDen(int, int const*)', unit=U, ptrs=inst.ptrs, exits=NOEXIT,
        requires=[WFB, ('order', lambda c: P(c, 1) >= 1)],
        ensures=[('the denominator of the context', lambda c: c.result == V(c).Bf('den', P(c, 1), bkey(c, P(c, 2), P(c, 1))))])
    if inst.bot == 'bo_c':
        S['bgetnz'] = Spec(
            inst.gen + '::GetBackoffNzer_1nzer(int, int const*)', unit=U, ptrs=inst.ptrs, exits=NOEXIT,
            requires=[WFB, ('order', lambda c: P(c, 1) >= 1)],
            ensures=[('the number of extensions of the context', lambda c: c.result == V(c).Bf('nzer', P(c, 1), bkey(c, P(c, 2), P(c, 1))))])
    S['bget'] = Spec(
        inst.gen + '::GetBackoff(int, int const*, %s*)' % inst.bo, unit=U, ptrs=inst.ptrs, exits=NOEXIT,
        requires=[WFB, ('order', lambda c: And(1 <= P(c, 1), V(c).nb() >= 2)), ('initial statistics are 0', lambda c: And([
            fld(c.obj(init(c), B), f) == 0 for f in V(c).names()]))],
        assigns=lambda c: c.obj(P(c, 3), B).locs(),
        ensures=[('the statistics of the context', lambda c: And([
            fld(c.obj(P(c, 3), B), f) == V(c).Bf(f, P(c, 1), bkey(c, P(c, 2), P(c, 1))) for f in V(c).names()]))])

    def init(c):
        return V(c).o.loc('m_bb_init')
    return S


def hints(eng):
    for t in eng.mod.types:
        if t.startswith('struct.MultiOrderCounts_counter_types::bo_'):
            eng.structhint.setdefault(eng.mod.sizeof(('named', t)), ('named', t))
