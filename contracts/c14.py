"""C14: the counted n-grams are exactly the windows of the text.

TEXT[i] is the index of the i-th token. Ghost functions over it (defined by recursion):
S(i)  position of the last sentence start at or before i (0 when there is none),
LEN(i) = min(i - S(i) + 1, order), the window ending at i, and
CNT(i, o, K): how many of the first i windows have length o and words K."""
import z3
import moc, spec, store, strmap
from moc import NOEXIT
from store import KEYOF
from sym import Spec, Loop, Ptr, I, Ctx
from spec import forall, implies, And, Or, Not, If

U = 'unit:moc.cc'
F = z3.Function
ARR = z3.ArraySort(I, I)
S, CNT = F('S_text', I, I), F('CNT_text', I, I, I, I)
WCNT = F('WCNT_text', I, I, I)
DIFF = F('diff_at', ARR, I, ARR, I, I, I)
TEXT, NTOK = z3.Const('TEXT', ARR), z3.Int('NTOK')
TOKSID, VIDX = F('token_word', I, I), F('index_of_word', I, I)


def keyaxiom():
    """keys are their contents: different keys of n bytes differ at some word"""
    a, b = z3.Consts('a?k b?k', ARR)
    x, y, n = z3.Ints('x?k y?k n?k')
    d = DIFF(a, x, b, y, n)
    return z3.ForAll([a, b, x, y, n], implies(KEYOF(a, x, n) != KEYOF(b, y, n), And(
        0 <= d, 4 * d < n, z3.Select(a, x + d) != z3.Select(b, y + d))), patterns=[z3.MultiPattern(KEYOF(a, x, n), KEYOF(b, y, n))])


def minr(a, r):
    return If(a < r, a, r)


def axioms(T, n, ss, r):
    def ln(i):
        return minr(i - S(i) + 1, r)

    def step(i, o, k):
        return CNT(i, o, k) + If(And(o == ln(i), k == KEYOF(T, i - ln(i) + 1, 4 * ln(i))), 1, 0)
    return And(
        forall(lambda i: (implies(And(0 <= i, i < n), And(
            S(i) == If(z3.Select(T, i) == ss, i, If(i == 0, 0, S(i - 1))), 0 <= S(i), S(i) <= i)), S(i))),
        forall(lambda o, k: (CNT(0, o, k) == 0, CNT(0, o, k))),
        forall(lambda i, o, k: (implies(And(0 <= i, i < n), CNT(i + 1, o, k) == step(i, o, k)), CNT(i + 1, o, k))),
        keyaxiom())


def nn(v, o):
    return If(And(1 <= o, o < v.nc()), v.n(o), 0)


# ---------------------------------------------------------------- text as a stream of tokens
def pos(eng, st):
    return eng.cell(st, '#text', ('POS', 0), I)


def r_fscanf(eng, st, args, info):
    p = pos(eng, st)
    eng.assumed.add('fscanf("%s"): delivers the words of the text one after another')
    a, b = st.copy(), st.copy()
    a.assume(p < NTOK)
    b.assume(p == NTOK)
    eng.note_write(('#text', ('POS', 0)))
    a.cells[('#text', ('POS', 0))] = p + 1
    q = Ptr(args[2].region, args[2].path + ('CSTR', 0), args[2].idx)
    eng.note_write((q.region, q.path))
    a.cells[(q.region, q.path)] = spec_store(eng, a, q, TOKSID(p))
    return [('ret', a, z3.IntVal(1)), ('ret', b, z3.IntVal(-1))]


def spec_store(eng, st, q, v):
    return store.nstore(eng.cell(st, q.region, q.path, I), q.idx, v)


def r_index(eng, st, args, info):
    """index of a word in the (final) vocabulary: C03"""
    eng.assumed.add('Vocabulary::word_index, add_word: a fixed index per word (C03)')
    return [('ret', st, VIDX(strmap.sidp(eng, st, args[1])))]


def configure(eng, spc):
    if not any(h is r_fscanf for _, h in eng.stl.rules):
        eng.stl.rules[:0] = [(r'^(__isoc\d+_)?fscanf$', r_fscanf), (r'^Vocabulary::(word_index|add_word)\(', r_index)]


def textax():
    return And(NTOK >= 0, NTOK < 2 ** 30, forall(lambda i: (implies(And(0 <= i, i < NTOK), z3.Select(TEXT, i) == VIDX(TOKSID(i))), TOKSID(i))))


def P(c, i):
    return moc.P(c, i)


def tokens(c, i, tname):
    """the in-memory text of parameter i"""
    w = c.obj(P(c, i), tname).datavec
    p = spec.velem(w.p, 4, z3.IntVal(0))
    return c.eng.cell(c.st, p.region, p.path, I), w.size


def vec(c):
    return spec.V(c.eng, c.st, c.v('v'), c.eng.mod.find_di_type('vector<int, std::allocator<int> >'))


def moccounts(inst, L):
    V = inst.M

    def done(c, n, ncond=True):
        v, w = V(c), V(c.old)
        return forall(lambda o, k: (implies(1 <= o, v.A(o, k) == w.A(o, k) + CNT(n, o, k)), v.slot(o, k)))

    def window(c, T, n, r):
        """the window after n tokens"""
        v = vec(c)
        ln = minr(n - S(n - 1), r)
        return And(
            v.size == If(n == 0, 0, ln), n >= 0,
            implies(And(n > 0, ln < r), forall(lambda j: (implies(And(0 <= j, j < ln), v[j] == z3.Select(T, n - ln + j)), v[j]))),
            implies(And(n > 0, ln == r), forall(lambda j: (implies(And(0 <= j, j < r - 1), v[j] == z3.Select(T, n - r + 1 + j)), v[j]))))

    def room(c, n):
        v, w = V(c), V(c.old)
        return forall(lambda o: (implies(And(1 <= o, o < v.nc()), v.n(o) <= nn(w, o) + n), v.n(o)))

    def invs(T, n, r):
        return [('maps', lambda c: moc.wfc(V(c))), ('room', lambda c: room(c, n(c))),
                ('the window', lambda c: window(c, T(c), n(c), r(c))),
                ('counts of the windows so far', lambda c: done(c, n(c)))]

    def shift(T, n, r):
        """inside the shift: token number n(c) (from 0) has been counted"""
        def f(c):
            v, j = vec(c), c.v('j')
            b = n(c) - r(c) + 1
            return And(0 <= j, j <= r(c) - 1, v.size == r(c), n(c) - S(n(c)) + 1 >= r(c), n(c) >= 0,
                       forall(lambda t: (implies(And(0 <= t, t < j), v[t] == z3.Select(T(c), b + t + 1)), v[t])),
                       forall(lambda t: (implies(And(j <= t, t < r(c)), v[t] == z3.Select(T(c), b + t)), v[t])))
        return [('maps', lambda c: moc.wfc(V(c))), ('room', lambda c: room(c, n(c) + 1)), ('shifted so far', f),
                ('counts of the windows so far', lambda c: done(c, n(c) + 1))]

    def start(c, n, r):
        return And(n >= 0, n < 2 ** 30, r >= 1, r < 2 ** 20, moc.wfc(V(c)),
                   forall(lambda o: (implies(And(1 <= o, o < V(c).nc()), V(c).n(o) + n < 2 ** 31 - 64), V(c).n(o))))

    # from memory
    ST = 'Storage<int>'
    mem = Spec(
        inst.base + '::InitializeCountsFromStorage(Storage_t<int, %s>*, int, int)' % inst.ct, unit=U, ptrs=inst.ptrs, exits=NOEXIT,
        requires=[('counts', lambda c: start(c, tokens(c, 1, ST)[1], P(c, 2))),
                  ('definitions', lambda c: axioms(*tokens(c, 1, ST), P(c, 3), P(c, 2)))],
        assigns=lambda c: [V(c).ob.loc('m_counts'), V(c).ob.loc('hashsize')] + V(c).C.assigns() + [moc.ksz(V(c).C), moc.dfl(V(c).C)],
        ensures=[('every window is counted exactly once', lambda c: done(c, tokens(c, 1, ST)[1])),
                 ('number of tokens', lambda c: c.result == tokens(c, 1, ST)[1])],
        loops=[Loop([('position', lambda c: And(c.v('di') >= 0, c.v('di') <= tokens(c, 1, ST)[1], c.v('num_read') == c.v('di')))] +
                    invs(lambda c: tokens(c, 1, ST)[0], lambda c: c.v('di'), lambda c: P(c, 2))),
               Loop([('position', lambda c: And(c.v('di') >= 0, c.v('di') < tokens(c, 1, ST)[1], c.v('num_read') == c.v('di') + 1))] +
                    shift(lambda c: tokens(c, 1, ST)[0], lambda c: c.v('di'), lambda c: P(c, 2)))])
    # from a file
    ssi = lambda c: c.v('sent_start_idx')
    SS = z3.Int('sentence_start')

    def sscase(c):
        sid = strmap.sidp(c.eng, c.st, P(c, 5))
        return SS == If(strmap.slen(c.eng, sid) == 0, -1, VIDX(sid))
    txt = Spec(
        inst.base + '::InitializeCountsFromText(_IO_FILE*, Vocabulary*, bool, int, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&)',
        unit=U, ptrs=inst.ptrs, exits=lambda c: strmap.slen(c.eng, strmap.sidp(c.eng, c.st, P(c, 5))) != 0,
        requires=[('text', lambda c: And(textax(), pos(c.eng, c.st) == 0, sscase(c))),
                  ('counts', lambda c: start(c, NTOK, P(c, 4))),
                  ('definitions', lambda c: axioms(TEXT, NTOK, SS, P(c, 4)))],
        assigns=lambda c: [V(c).ob.loc('m_counts'), V(c).ob.loc('hashsize'), V(c).ob.loc('vocabsize'), Ptr('#text', ('POS', 0))] +
        V(c).C.assigns() + [moc.ksz(V(c).C), moc.dfl(V(c).C)],
        ensures=[('every window is counted exactly once', lambda c: done(c, NTOK)),
                 ('number of tokens', lambda c: c.result == NTOK)],
        loops=[Loop([('position', lambda c: And(pos(c.eng, c.st) >= 0, pos(c.eng, c.st) <= NTOK, c.v('num_read') == pos(c.eng, c.st), ssi(c) == SS))] +
                    invs(lambda c: TEXT, lambda c: pos(c.eng, c.st), lambda c: P(c, 4))),
               Loop([('position', lambda c: And(pos(c.eng, c.st) >= 1, pos(c.eng, c.st) <= NTOK, c.v('num_read') == pos(c.eng, c.st), ssi(c) == SS))] +
                    shift(lambda c: TEXT, lambda c: pos(c.eng, c.st) - 1, lambda c: P(c, 4)))])
    return [L['alloc_c'], L['inc'], mem, txt]


def ngramcounts():
    NC = 'NgramCounts_t<int, int>'

    def ctr(c):
        this = c.a('this')
        key = ('nc', this.region, this.path)
        d = c.eng.__dict__.setdefault('mocs', {})
        if key not in d:
            d[key] = store.single(c.eng, this, NC, 'counts')
        return d[key]

    def ptrs(eng, args, names, st):
        eng.__dict__.setdefault('mocs', {})[('nc', 'this', args[0].path)] = store.single(eng, args[names.index('this')], NC, 'counts')
        return args

    def ds(c):
        return c.obj('this', NC).m_ds

    def axs(c, T, n):
        d = ds(c).size
        return And(forall(lambda k: (WCNT(0, k) == 0, WCNT(0, k))),
                   forall(lambda i, k: (implies(And(0 <= i, i < n), WCNT(i + 1, k) == WCNT(i, k) + If(
                       And(i + 1 >= d, k == KEYOF(T, i - d + 1, 4 * d)), 1, 0)), WCNT(i + 1, k))), keyaxiom())

    def req(c, T, n):
        C = ctr(c)
        d = ds(c).size
        return And(n >= 0, n < 2 ** 30, d >= 1, d < 2 ** 20, store.wf1(C, c.st), C.keysize(c.st, C.base.idx) == 4 * d,
                   C.n(c.st, C.base.idx) + n < 2 ** 31 - 64,
                   # no count cancels to the default value
                   forall(lambda k: (store.value(C, c.st, k) >= 0, C.slot(c.st, C.base.idx, k))))

    def done(c, n):
        C = ctr(c)
        return forall(lambda k: (store.value(C, c.st, k) == store.value(C, c.o, k) + WCNT(n, k), C.slot(c.st, C.base.idx, k)))

    def common(c, n):
        C = ctr(c)
        d = ds(c).size
        return And(store.wf1(C, c.st), C.n(c.st, C.base.idx) <= C.n(c.o, C.base.idx) + n, d == ds(c.old).size, n >= 0)

    def nr(n, d):
        """windows among n tokens"""
        return If(n < d, 0, n - d + 1)

    def full(c, T, n):
        d = ds(c).size
        return forall(lambda j: (implies(And(0 <= j, j < d, n - d + j >= 0), ds(c)[j] == z3.Select(T, n - d + j)), ds(c)[j]))

    def shifting(c, T, n):
        """tokens 0..n-1 seen, token n being shifted in"""
        d, i = ds(c).size, c.v('i')
        return And(0 <= i, i <= d - 1,
                   forall(lambda j: (implies(And(0 <= j, j < i, n + 1 - d + j >= 0), ds(c)[j] == z3.Select(T, n + 1 - d + j)), ds(c)[j])),
                   forall(lambda j: (implies(And(i <= j, j < d, n - d + j >= 0), ds(c)[j] == z3.Select(T, n - d + j)), ds(c)[j])))

    def frame(c):
        C = ctr(c)
        w = ds(c)
        return C.assigns() + [Ptr(w.p.region, spec.velem(w.p, 4, z3.IntVal(0)).path)]

    def mk(fn, T, n, pre, pos, extra=lambda c: z3.BoolVal(True), fr=lambda c: []):
        return Spec(
            NC + '::count(%s)' % fn, unit=U, ptrs=ptrs, exits=lambda c: z3.BoolVal(True),
            requires=[(pre, lambda c: And(extra(c), req(c, T(c), n(c)))), ('definitions', lambda c: axs(c, T(c), n(c)))],
            assigns=lambda c: frame(c) + fr(c),
            ensures=[('every window of the order is counted exactly once', lambda c: done(c, n(c))),
                     ('number of windows', lambda c: c.result == nr(n(c), ds(c).size))],
            loops=[Loop([('position', lambda c: And(0 <= pos(c), pos(c) <= n(c), c.v('n_entries') == pos(c), c.v('num_read') == nr(pos(c), ds(c).size))),
                         ('maps', lambda c: common(c, pos(c))), ('the window', lambda c: full(c, T(c), pos(c))),
                         ('counts of the windows so far', lambda c: done(c, pos(c)))]),
                   Loop([('position', lambda c: And(0 <= ipos(c), ipos(c) < n(c), c.v('n_entries') == ipos(c), c.v('num_read') == nr(ipos(c), ds(c).size),
                                                    c.v('idx') == z3.Select(T(c), ipos(c)))),
                         ('maps', lambda c: common(c, ipos(c))), ('shifted so far', lambda c: shifting(c, T(c), ipos(c))),
                         ('counts of the windows so far', lambda c: done(c, ipos(c)))])])
    ipos = lambda c: c.v('n_entries')
    ST = 'Storage<int>'
    mem = mk('Storage_t<int, int>*', lambda c: tokens(c, 1, ST)[0], lambda c: tokens(c, 1, ST)[1], 'counts', lambda c: c.v('di'))
    txt = mk('_IO_FILE*, bool', lambda c: TEXT, lambda c: NTOK, 'counts and text', lambda c: pos(c.eng, c.st),
             lambda c: And(textax(), pos(c.eng, c.st) == 0), lambda c: [Ptr('#text', ('POS', 0))])
    return [mem, txt]


def storage():
    def dv(c):
        return c.obj('this', 'Storage<int>').datavec

    def holds(c, n):
        w, o = dv(c), dv(c.old)
        return And(w.size == o.size + n, n >= 0, n <= NTOK,
                   forall(lambda i: (implies(And(0 <= i, i < o.size), w[i] == o[i]), w[i])),
                   forall(lambda i: (implies(And(o.size <= i, i < o.size + n), w[i] == z3.Select(TEXT, i - o.size)), w[i])))
    return [Spec('Storage<int>::read(_IO_FILE*, Vocabulary&)', unit=U, exits=NOEXIT,
                 requires=[('text', lambda c: And(textax(), pos(c.eng, c.st) == 0, dv(c).size + NTOK < 2 ** 31 - 64))],
                 assigns=lambda c: [c.obj('this', 'Storage<int>').loc('datavec'), Ptr('#text', ('POS', 0))],
                 ensures=[('the copy in memory is the text', lambda c: holds(c, NTOK))],
                 loops=[Loop([('so far', lambda c: holds(c, pos(c.eng, c.st)))])])]


SPECS = []
for inst in (moc.Inst('int', 'bo_3c'), moc.Inst('long', 'bo_c')):
    SPECS += moccounts(inst, moc.layer(inst))
SPECS += ngramcounts() + storage()
HARNESS = 'c14.cc'
BOUNDED = 'random short texts (restricting the vocabulary afterwards included), vocabularies, orders and sentence-start settings against direct window counting; the three readers against each other'
BOUNDED_FUNCTIONS = ['NgramCounts_t::shrink']
DECIDES = 'InitializeCountsFromText, InitializeCountsFromStorage, NgramCounts_t::count (both), Storage::read: for every text each n-gram is counted once per window; both sources give the same counts'
