"""C23: the count file lists every non-zero count and every context with a non-zero denominator, nothing else.

WriteCounts is proved to produce exactly this layout of items (BASE(o): where the section of order o starts):
   vocabsize line; for every order o: header, one line per entry whose count is not 0 (in the order of the
   slots), header, the statistics of the contexts whose denominator is not 0 (the empty context for order 1)."""
import z3
import moc, spec, stl, store, recio, strmap, lines
from ir import Unsupported
from stl import ret
from moc import NOEXIT, fld, P
from sym import Spec, Loop, Ptr, I, R, nsel
from spec import forall, implies, And, Or, Not, If
from recio import NL, SP, STR, INT, VEC
from lines import NLINES, LID, BLANK, CH0, WITH0, TOK, NTOK, NUMV, NUMOK, lpos

U = 'unit:moc.cc'
ARR = z3.ArraySort(I, I)
NZ = z3.Function('nonzero_before', ARR, I, I)            # entries before slot j with a non-zero value
BASE = z3.Function('section_start', I, I)


def nzdef(eng, st, S, idx, j):
    f = '' if '' in S.fields else 'den'
    (r, p), s = S.cf(f)
    a = z3.Select(eng.cell(st, r, p, s), idx[0])
    if j is None:
        st.assume(NZ(a, 0) == 0)
    else:
        st.assume(z3.And(NZ(a, j + 1) == NZ(a, j) + z3.If(z3.Select(a, j) == 0, 0, 1), NZ(a, j) >= 0))


def log(c):
    return recio.Log(c)


class W:
    def __init__(s, inst, c):
        s.c, s.v = c, inst.M(c)
        s.i = log(c)
        s.fields = ['nzer', 'den', 'prune_den'] if inst.bot == 'bo_c' else [('nzer', 0), ('nzer', 1), ('nzer', 2), 'den', 'prune_den']
        s.nb = 2 * len(s.fields) + 2                     # items of a line of statistics
        s.top = s.v.nc() - 1

    def den(s, o):
        (r, p), t = s.v.B.cf('den')
        return z3.Select(s.c.eng.cell(s.c.st, r, p, t), o)

    def nz(s, o, j):
        return NZ(s.v.vs(o), j)

    def bnz(s, o, j):
        return NZ(s.den(o), j)

    def cpos(s, o, j):
        return BASE(o) + 6 + 4 * s.nz(o, j)

    def hb(s, o):
        """where the header of the statistics of order o starts"""
        return s.cpos(o, s.v.n(o))

    def bpos(s, o, j):
        return s.hb(o) + 7 + s.nb * s.bnz(o, j)

    def defs(s):
        return And(BASE(1) == 4, forall(lambda o: (implies(o >= 1, BASE(o + 1) == If(
            o == 1, s.hb(o) + 7 + 4 + 2 * len(s.fields) - 1 + 2, s.bpos(o, s.v.bn(o)) + 1)), BASE(o + 1))))

    def text(s, p, *xs):
        r = []
        for k, x in enumerate(xs):
            if x in (NL, SP):
                r.append(s.i.is_(p + k, x))
            elif isinstance(x, str):
                r.append(s.i.text(p + k, x))
            else:
                r.append(s.i.is_(p + k, INT, x))
        return And(*r)

    def vec(s, p, key, n):
        return And(s.i.is_(p, VEC, key), s.i.f('D', p) == n)

    def line(s, o, j):
        p = s.cpos(o, j)
        return implies(s.v.cnt(o, j) != 0, And(s.vec(p, s.v.key(o, j), o), s.text(p + 1, SP, s.v.cnt(o, j), NL)))

    def stats(s, p, f):
        xs = []
        for nm in s.fields:
            xs += [f(nm), SP]
        return s.text(p, *xs[:-1])

    def bline(s, o, j):
        p = s.bpos(o, j)
        return implies(s.v.b('den', o, j) != 0, And(s.vec(p, s.v.bkey(o, j), o - 1), s.i.is_(p + 1, SP),
                                                    s.stats(p + 2, lambda f: s.v.b(f, o, j)), s.i.is_(p + s.nb - 1, NL)))

    def ch(s, o):
        return s.text(BASE(o), '\\', o, '-gram', SP, 'counts', NL)

    def bh(s, o):
        return s.text(s.hb(o), NL, '\\', o, '-gram', SP, 'backoffs', NL)

    def head(s):
        return s.text(z3.IntVal(0), '\\vocabsize', SP, s.v.ob.vocabsize, NL)

    def uni(s):
        p = s.hb(z3.IntVal(1)) + 7
        n = 2 * len(s.fields) - 1
        return And(s.text(p, '[', SP, ']', SP), s.stats(p + 4, s.v.uni), s.text(p + 4 + n, NL, NL))

    # ---- what has been written
    def lines(s, o, n):
        """lines of the entries before slot n of order o"""
        return forall(lambda j: (implies(And(0 <= j, j < n), s.line(o, j)), s.v.key(o, j)))

    def blines(s, o, n):
        return forall(lambda j: (implies(And(0 <= j, j < n), s.bline(o, j)), s.v.bkey(o, j)))

    def sections(s, n):
        """the complete sections of the orders below n"""
        return And(*[f(n) for _, f in s.parts()])

    def parts(s):
        v = s.v
        return [('first line', lambda n: And(s.head(), implies(n >= 2, s.uni()))),
                ('headers', lambda n: forall(lambda o: (implies(And(1 <= o, o < n), And(s.ch(o), s.bh(o))), BASE(o)))),
                ('ends', lambda n: forall(lambda o: (implies(And(2 <= o, o < n), s.i.is_(BASE(o + 1) - 1, NL)), BASE(o + 1)))),
                ('counts', lambda n: forall(lambda o, j: (implies(And(1 <= o, o < n, 0 <= j, j < v.n(o)), s.line(o, j)), v.key(o, j)))),
                ('statistics', lambda n: forall(lambda o, j: (implies(And(2 <= o, o < n, 0 <= j, j < v.bn(o)), s.bline(o, j)), v.bkey(o, j))))]

    def mono(s, n):
        """sections follow one another"""
        v = s.v
        return And(forall(lambda o: (implies(And(1 <= o, o < n), And(BASE(o) >= 4, s.hb(o) >= BASE(o) + 6, s.hb(o) + 8 <= BASE(n),
                                                                     implies(o == 1, s.hb(o) + 12 + 2 * len(s.fields) <= BASE(n)))), BASE(o))),
                   forall(lambda o: (implies(And(2 <= o, o < n), And(BASE(o + 1) >= s.hb(o) + 8, BASE(o + 1) <= BASE(n))), BASE(o + 1))),
                   forall(lambda o, j: (implies(And(1 <= o, o < n, 0 <= j, j < v.n(o), v.cnt(o, j) != 0), And(
                       s.cpos(o, j) >= BASE(o) + 6, s.cpos(o, j) + 4 <= s.hb(o))), v.key(o, j))),
                   forall(lambda o, j: (implies(And(2 <= o, o < n, 0 <= j, j < v.bn(o), v.b('den', o, j) != 0), And(
                       s.bpos(o, j) >= s.hb(o) + 7, s.bpos(o, j) + s.nb <= BASE(n))), v.bkey(o, j))))

    def below(s, o, n):
        v = s.v
        return forall(lambda j: (implies(And(0 <= j, j < n, v.cnt(o, j) != 0), And(
            s.cpos(o, j) >= BASE(o) + 6, s.cpos(o, j) + 4 <= s.cpos(o, n))), v.key(o, j)))

    def bbelow(s, o, n):
        v = s.v
        return forall(lambda j: (implies(And(0 <= j, j < n, v.b('den', o, j) != 0), And(
            s.bpos(o, j) >= s.hb(o) + 7, s.bpos(o, j) + s.nb <= s.bpos(o, n))), v.bkey(o, j)))


def writing_ptrs(inst):
    def ptrs(eng, args, names, st):
        this = args[names.index('this')]
        for g in range(4):
            q = this.off(8 * g)
            eng.ptrinfo[(q.region, q.path)] = 'vtable:%s+%d' % (inst.dyn(), g)
        inst.stores(eng, this)
        return args
    return ptrs


def writing(inst):
    w = lambda c: W(inst, c)
    J = lambda c: store.stepidx(c.eng, c.st)
    ov = lambda c: c.v('o')

    ptrs = writing_ptrs(inst)

    outer = [('range', lambda c: And(ov(c) >= 1, ov(c) <= w(c).top + 1)), ('position', lambda c: And(log(c).pos == BASE(ov(c)), BASE(ov(c)) >= 4)),
             ('sections in order', lambda c: w(c).mono(ov(c))), ] + [
        ('sections written: ' + nm, lambda c, k=k: w(c).parts()[k][1](ov(c))) for k, nm in enumerate(['first line', 'headers', 'ends', 'counts', 'statistics'])]

    def open_(c, k):
        """order o is being written: k = 0 counts, 1 statistics"""
        r = [1 <= ov(c), ov(c) <= w(c).top, BASE(ov(c)) >= 4, w(c).ch(ov(c))]
        if k:
            r += [ov(c) >= 2, w(c).bh(ov(c)), w(c).hb(ov(c)) >= BASE(ov(c)) + 6]
        return And(*r)
    step = lambda c, n: And(J(c) >= -1, J(c) < n)
    vsize = lambda c, n: spec.V(c.eng, c.st, c.v('v'), c.eng.mod.find_di_type('vector<int, std::allocator<int> >')).size == n
    write = Spec(
        inst.gen + '::WriteCounts(_IO_FILE*)', unit=U, ptrs=ptrs, exits=NOEXIT,
        requires=[('count stores are maps', lambda c: moc.wfc(w(c).v)), ('context stores are maps', lambda c: moc.wfb(w(c).v)),
                  ('orders', lambda c: And(w(c).v.nc() >= 1, w(c).v.nb() >= w(c).v.nc(), w(c).v.nc() < 2 ** 20)),
                  ('at the start', lambda c: log(c).pos == 0), ('section starts', lambda c: w(c).defs())],
        assigns=lambda c: [recio.ALLOUT] + store.stepframe(),
        ensures=[('exactly the non-zero entries, in the layout of the file: ' + nm, lambda c, k=k: w(c).parts()[k][1](w(c).top + 1))
                 for k, nm in enumerate(['first line', 'headers', 'ends', 'counts', 'statistics'])] + [
                 ('nothing else', lambda c: log(c).pos == BASE(w(c).top + 1))],
        loops=[Loop(outer),
               Loop([('open', lambda c: And(open_(c, 0), step(c, w(c).v.n(ov(c))), vsize(c, ov(c)))), ('position', lambda c: log(c).pos == w(c).cpos(ov(c), J(c) + 1)),
                     ('lines in order', lambda c: And(w(c).nz(ov(c), J(c) + 1) >= 0, w(c).below(ov(c), J(c) + 1))),
                     ('lines', lambda c: w(c).lines(ov(c), J(c) + 1))] + outer[2:]),
               Loop([('open', lambda c: And(open_(c, 1), step(c, w(c).v.bn(ov(c))), vsize(c, ov(c) - 1))), ('position', lambda c: log(c).pos == w(c).bpos(ov(c), J(c) + 1)),
                     ('counts in order', lambda c: w(c).below(ov(c), w(c).v.n(ov(c)))), ('counts', lambda c: w(c).lines(ov(c), w(c).v.n(ov(c)))),
                     ('lines in order', lambda c: And(w(c).bnz(ov(c), J(c) + 1) >= 0, w(c).bbelow(ov(c), J(c) + 1))),
                     ('lines', lambda c: w(c).blines(ov(c), J(c) + 1))] + outer[2:])])
    return [write]


def out_words(c, n):
    """" w" n times"""
    i, o = log(c), log(c.old)
    v = spec.velem(c.a(1), 4, z3.IntVal(0))
    a = lambda k: z3.Select(c.eng.cell(c.st, v.region, v.path, I), k)
    return And(i.text(o.pos, '['), forall(lambda k: (implies(And(0 <= k, k < n), And(
        i.is_(o.pos + 1 + 2 * k, SP), i.is_(o.pos + 2 + 2 * k, INT, c.ld(spec.velem(c.a(1), 4, k), 'i32')))), i.a(o.pos + 2 + 2 * k))))


def kept(c):
    """what was written before stays"""
    i, o = log(c), log(c.old)
    return And(*[forall(lambda k: (implies(k < o.pos, f(i, k) == f(o, k)), f(i, k))) for f in (
        lambda l, k: l.kind(k), lambda l, k: l.a(k))])


indices = Spec(
    'print_indices(_IO_FILE*, int const*, int)', unit=U, exits=NOEXIT, modular=False, requires=[('dimension', lambda c: c.a(2) >= 0)],
    assigns=lambda c: [recio.ALLOUT],
    ensures=[('[ w1 .. wn ]', lambda c: And(out_words(c, c.a(2)), log(c).is_(log(c.old).pos + 1 + 2 * c.a(2), SP),
                                            log(c).text(log(c.old).pos + 2 + 2 * c.a(2), ']'))),
             ('nothing else', lambda c: log(c).pos == log(c.old).pos + 3 + 2 * c.a(2)), ('what was written before stays', kept)],
    loops=[Loop([('words so far', lambda c: And(0 <= c.v('i'), c.v('i') <= c.a(2), log(c).pos == log(c.old).pos + 1 + 2 * c.v('i'),
                                                out_words(c, c.v('i')))), ('what was written before stays', kept)])])

# ---------------------------------------------------------------- reading
KIND = z3.Function('line_kind', I, I)                    # 0 blank, 1 header of counts, 2 of statistics, 3 a count, 4 statistics
ORD = z3.Function('order_before_line', I, I)             # of the section a line is in
SEC = z3.Function('statistics_before_line', I, z3.BoolSort())
NUMS = z3.Function('numbers_of_line', I, ARR)            # the words of the key
DIFF = z3.Function('first_difference', ARR, ARR, I, I)
CLINE = z3.Function('line_of_count', I, I, I)            # line with the count of an n-gram, -1: none
BLINE = z3.Function('line_of_statistics', I, I, I)
KEYOF = store.KEYOF


def D(eng):
    return lines.sep(eng, '-'), lines.sep(eng, ' \t')


def reading(inst):
    w = lambda c: W(inst, c)
    L = moc.layer(inst)

    def key(l, n):
        return KEYOF(NUMS(l), 0, n)

    def ckeyl(l):
        return key(l, 4 * ORD(l))

    def bkeyl(l):
        return key(l, 4 * (ORD(l) - 1))

    def num(c, l, i):
        t = TOK(LID(l), D(c.eng)[1], i)
        return NUMV(t)

    def ok(c, l, i):
        return NUMOK(TOK(LID(l), D(c.eng)[1], i))

    def small(x, b=31):
        return And(x >= -2 ** b, x < 2 ** b)
    CB = 31 if inst.ct == 'int' else 63

    def file(c):
        """the lines of a count file"""
        d0, d1 = D(c.eng)
        F = len(w(c).fields)
        lit = lambda s: strmap.strlit(c.eng, s)
        t0 = lambda l: WITH0(TOK(LID(l), d0, 0), 32)
        t = lambda l: TOK(LID(l), d0, 1)
        return And(
            1 <= NLINES, NLINES < 2 ** 30, NUMOK(LID(0)), small(NUMV(LID(0))),
            forall(lambda l: (implies(And(1 <= l, l < NLINES), And(
                KIND(l) >= 0, KIND(l) <= 4, BLANK(LID(l)) == (KIND(l) == 0), implies(KIND(l) != 0, (CH0(LID(l)) == 92) == Or(KIND(l) == 1, KIND(l) == 2)),
                ORD(l + 1) == If(Or(KIND(l) == 1, KIND(l) == 2), NUMV(t0(l)), ORD(l)),
                SEC(l + 1) == If(KIND(l) == 1, False, If(KIND(l) == 2, True, SEC(l))))), LID(l))),
            forall(lambda l: (implies(And(1 <= l, l < NLINES, Or(KIND(l) == 1, KIND(l) == 2)), And(
                NTOK(LID(l), d0) >= 2, CH0(TOK(LID(l), d0, 0)) == 92, NUMOK(t0(l)), NUMV(t0(l)) >= 1, NUMV(t0(l)) < 2 ** 20,
                t(l) == If(KIND(l) == 1, lit('gram counts'), lit('gram backoffs')))), LID(l))),
            forall(lambda l: (implies(And(1 <= l, l < NLINES, KIND(l) == 3), And(
                Not(SEC(l)), ORD(l) >= 1, ORD(l) < 2 ** 20, NTOK(LID(l), d1) == ORD(l) + 3, ok(c, l, ORD(l) + 2), small(num(c, l, ORD(l) + 2), CB),
                CLINE(ORD(l), ckeyl(l)) == l)), LID(l))),
            forall(lambda l: (implies(And(1 <= l, l < NLINES, KIND(l) == 4), And(
                SEC(l), ORD(l) >= 1, ORD(l) < 2 ** 20, NTOK(LID(l), d1) == ORD(l) + 1 + F,
                And(*[And(ok(c, l, ORD(l) + 1 + k), small(num(c, l, ORD(l) + 1 + k), CB)) for k in range(F)]),
                BLINE(ORD(l), If(ORD(l) == 1, 0, bkeyl(l))) == l)), LID(l))),
            forall(lambda l, i: (implies(And(1 <= l, l < NLINES, KIND(l) >= 3, 1 <= i, i <= If(KIND(l) == 3, ORD(l), ORD(l) - 1)), And(
                ok(c, l, i), small(num(c, l, i)), z3.Select(NUMS(l), i - 1) == num(c, l, i))), TOK(LID(l), d1, i))))

    def where(c):
        """one line per n-gram and per context"""
        return And(
            forall(lambda o, k: (implies(CLINE(o, k) >= 0, And(1 <= CLINE(o, k), CLINE(o, k) < NLINES, KIND(CLINE(o, k)) == 3, ORD(CLINE(o, k)) == o,
                                                               ckeyl(CLINE(o, k)) == k)), CLINE(o, k))),
            forall(lambda o, k: (implies(BLINE(o, k) >= 0, And(1 <= BLINE(o, k), BLINE(o, k) < NLINES, KIND(BLINE(o, k)) == 4, ORD(BLINE(o, k)) == o,
                                                               Or(o == 1, bkeyl(BLINE(o, k)) == k))), BLINE(o, k))))

    def ext(c):
        """keys are sequences of words"""
        a, b, n, p, q = z3.Const('a?ext', ARR), z3.Const('b?ext', ARR), z3.Int('n?ext'), z3.Int('p?ext'), z3.Int('q?ext')
        d = DIFF(a, b, n)
        return z3.ForAll([a, b, n, p], z3.Or(KEYOF(a, p, n) == KEYOF(b, 0, n), z3.And(0 <= d, 4 * d < n, z3.Select(a, p + d) != z3.Select(b, d))),
                         patterns=[z3.MultiPattern(KEYOF(a, p, n), KEYOF(b, 0, n))])

    def counts(c, l):
        v, u = w(c).v, w(c.old).v
        return forall(lambda o, k: (implies(o >= 1, v.A(o, k) == If(And(CLINE(o, k) >= 1, CLINE(o, k) < l), num(c, CLINE(o, k), o + 2), u.A(o, k))), v.slot(o, k)))

    def stats(c, l):
        v, u = w(c).v, w(c.old).v
        r = []
        for j, f in enumerate(w(c).fields):
            def one(o, k, f=f, j=j):
                x = BLINE(o, k)
                return If(And(x >= 1, x < l), num(c, x, o + 1 + j), u.Bf(f, o, k))

            def q(f, one):
                return forall(lambda o, k: (implies(o >= 2, v.Bf(f, o, k) == one(o, k)), v.bslot(o, k)))
            r += [q(f, one), v.uni(f) == one(z3.IntVal(1), z3.IntVal(0))]
        return And(*r)

    def room(c, l):
        v, u = w(c).v, w(c.old).v
        return And(forall(lambda o: (implies(And(1 <= o, o < v.nc()), v.n(o) <= If(o < u.nc(), u.n(o), 0) + l), v.n(o))),
                   forall(lambda o: (implies(And(2 <= o, o < v.nb()), v.bn(o) <= If(o < u.nb(), u.bn(o), 0) + l), v.bn(o))))

    def start(c):
        u = w(c).v
        return And(forall(lambda o: (implies(And(1 <= o, o < u.nc()), u.n(o) < 2 ** 29), u.n(o))),
                   forall(lambda o: (implies(And(2 <= o, o < u.nb()), u.bn(o) < 2 ** 29), u.bn(o))))

    def vec(c):
        return spec.V(c.eng, c.st, c.v('v'), c.eng.mod.find_di_type('vector<int, std::allocator<int> >'))
    okf = lambda c: c.ld(c.v('ok'), 'i8') if isinstance(c.v('ok'), Ptr) else c.v('ok')

    def h1(c):
        return And(1 <= lpos(c), lpos(c) <= NLINES, truth(okf(c)))

    def h2(c):
        return c.v('order') == ORD(lpos(c))

    def h3(c):
        return If(truth(c.v('read_backoffs')), SEC(lpos(c)), Not(SEC(lpos(c))))

    def hsize(c):
        l = lpos(c)
        return And(ORD(l) >= -1, ORD(l) != 0, implies(SEC(l), ORD(l) >= 1), vec(c).size == If(ORD(l) < 0, 0, If(truth(c.v('read_backoffs')), ORD(l) - 1, ORD(l))))

    def row(c, n):
        """words of the line read so far"""
        l = lpos(c) - 1
        return forall(lambda k: (implies(And(0 <= k, k < n), vec(c)[k] == num(c, l, k + 1)), vec(c)[k]))
    inv = [('line', h1), ('order', h2), ('section', h3), ('vector', hsize), ('maps', lambda c: And(moc.wfc(w(c).v), moc.wfb(w(c).v))), ('sizes', lambda c: room(c, lpos(c))),
             ('counts read', lambda c: counts(c, lpos(c))), ('statistics read', lambda c: stats(c, lpos(c)))]

    def inner(k):
        return Loop([('word', lambda c: And(1 <= c.v('i'), KIND(lpos(c) - 1) == k, 2 <= lpos(c), lpos(c) <= NLINES, truth(okf(c)),
                                            c.v('order') == ORD(lpos(c) - 1), c.v('i') <= (c.v('order') + 1 if k == 3 else c.v('order')), vec(c).size == (c.v('order') if k == 3 else c.v('order') - 1),
                                            )), ('words', lambda c: row(c, c.v('i') - 1))])

    read = Spec(
        inst.gen + '::ReadCounts(_IO_FILE*)', unit=U, ptrs=writing_ptrs(inst), exits=NOEXIT,
        requires=[('maps', lambda c: And(moc.wfc(w(c).v), moc.wfb(w(c).v))), ('at the start', lambda c: lpos(c) == 0),
                  ('a count file', file), ('one line per entry', where), ('keys', ext), ('room', start),
                  ('no section before the first header', lambda c: And(ORD(1) == -1, Not(SEC(1))))],
        assigns=lambda c: moc.frame(w(c).v) + [w(c).v.ob.loc('vocabsize'), Ptr('#in', ('LINE', 0))],
        ensures=[('vocabulary size', lambda c: w(c).v.ob.vocabsize == NUMV(LID(0))),
                 ('the counts of the file, others as before', lambda c: counts(c, NLINES)),
                 ('the statistics of the file, others as before', lambda c: stats(c, NLINES))],
        loops=[Loop(inv), inner(3), inner(4)])
    return [L['set'], L['bset'], L['alloc_c'], L['alloc_b'], read]


def truth(x):
    return x if z3.is_bool(x) else x != 0


SPECS = [indices]
for inst in (moc.Inst('int', 'bo_c'), moc.Inst('int', 'bo_3c'), moc.Inst('long', 'bo_c'), moc.Inst('long', 'bo_3c')):
    SPECS += writing(inst) + reading(inst)


def configure(eng, s):
    moc.hints(eng)
    eng.onstep = [nzdef]
    eng.addr0 = True         # &v[0] of an empty vector is only an address
    eng.stl.rules[:0] = lines.RULES + recio.RULES + recio.VECRULES


HARNESS = 'c23.cc'
HFLAGS = ['-U_GLIBCXX_ASSERTIONS']
BOUNDED = ('counts, context statistics and pruned mass of trained, grown and pruned models of both smoothing classes: the file read back into an '
           'empty object against the original, byte for byte when written again, zero entries absent')
BOUNDED_FUNCTIONS = ['allocate_matrices_counts, allocate_matrices_backoffs (assumed contracts)']
DECIDES = ('WriteCounts: exactly the non-zero counts and contexts with a non-zero denominator, with all their statistics, in one layout; ReadCounts: for a '
           'file with one line per n-gram and context, every count and statistic listed is stored and nothing else changes; print_indices')
NOTE = ('The stream is a sequence of items; that the lines of a file written have the fields the reader expects follows from the layout proved for the writer '
        'and the contract of str::split (C22); the two are joined by the bounded round trip.')
