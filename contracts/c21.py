"""C21: the search lists of the training data.

LEN(s, i) is the number of occurrences of context s before position i (a position counts
when the window ends there, see hit); the list of s holds the word of every occurrence,
in order, so it is determined completely."""
import z3
import moc, spec, store, strmap
from moc import NOEXIT, P
from sym import Spec, Loop, Ptr, I, R, Ctx
from spec import forall, implies, And, Or, Not, If
from c14 import keyaxiom
from store import KEYOF

U = 'unit:moc.cc'
ST = 'Storage_t<int, int>'
ST0 = z3.Function('start_before', I, I)     # where the window before position i may begin
LEN = z3.Function('occurrences_before', I, I, I)
CNT = z3.Function('times_before', I, I, I, I)
SIK = 'sikMatrix<int, int>'


def ref(c):
    return store.pointed(c.eng, P(c, 2), SIK)


def cur(c):
    return store.pointed(c.eng, P(c, 3), SIK)


def n(c):
    return ref(c).n(c.st, ())


def D(c):
    return c.obj('this', 'Storage<int>').datavec


def darr(c):
    w = D(c)
    q = spec.velem(w.p, 4, z3.IntVal(0))
    return store.nsel(c.eng.cell(c.st, q.region, q.path, I), q.idx[:-1])


def W(c):
    return spec.V(c.eng, c.st, c.v('v'), c.eng.mod.find_di_type('vector<int, std::allocator<int> >'))


def bnd(c):
    return c.obj('this', 'Storage<int>').clear_lm_history


def order(c):
    return P(c, 1)


def slot(c, k):
    return ref(c).slot(c.st, (), k)


def full(c, i):
    """a window of `order` words ends at i"""
    return And(0 <= i, i < D(c).size, i - ST0(i + 1) + 1 >= order(c))


def win(c, i, words):
    """key of the window of `order` words that ends at i, or of its first words"""
    return KEYOF(darr(c), i - order(c) + 1, 4 * words)


def hit(c, i, s, prefix=True, usecur=False):
    r = And(full(c, i), slot(c, win(c, i, order(c) - (1 if prefix else 0))) == s)
    if usecur:
        r = And(r, cur(c).slot(c.st, (), win(c, i, order(c))) < 0)
    return r


def starts(c, boundary=True):
    """the window is cut at the sentence start symbol"""
    d = D(c)
    return And(ST0(0) == 0, forall(lambda i: (implies(And(0 <= i, i < d.size), And(
        ST0(i + 1) == (If(d[i] == bnd(c), i, ST0(i)) if boundary else z3.IntVal(0)), 0 <= ST0(i), ST0(i) <= i)), ST0(i + 1))))


def lens(c, prefix=True, usecur=False, boundary=True):
    # no window is full before the first `order` words
    return And(forall(lambda s: (LEN(s, 0) == 0, LEN(s, 0))) if boundary else forall(lambda s, i: (implies(i < order(c), LEN(s, i) == 0), LEN(s, i))),
               forall(lambda s, i: (implies(And(0 <= i, i < D(c).size), LEN(s, i + 1) == LEN(s, i) + If(
                   hit(c, i, s, prefix, usecur), 1, 0)), LEN(s, i + 1))))


def wf(c, S, keysize):
    return And(S.wf(c.st, ()), S.keysize(c.st, ()) == 4 * keysize)


common = [
    ('sizes', lambda c: And(order(c) >= 2, order(c) < 2 ** 20, D(c).size >= 0, D(c).size < 2 ** 31 - 2)),
    ('keys are their contents', lambda c: keyaxiom())]


def window(c, i):
    """v holds the last words before position i"""
    v, d = W(c), D(c)
    m = If(i - ST0(i) < order(c), i - ST0(i), order(c))
    return And(v.size == m, 0 <= i, i <= d.size,
               implies(m < order(c), forall(lambda j: (implies(And(0 <= j, j < m), v[j] == d[i - m + j]), v[j]))),
               implies(m == order(c), forall(lambda j: (implies(And(0 <= j, j < m - 1), v[j] == d[i - m + 1 + j]), v[j]))))


def shifting(c, i):
    v, d = W(c), D(c)
    j0 = c.v('j')
    return And(v.size == order(c), 0 <= i, i < d.size, 0 <= j0, j0 <= order(c) - 1, i - ST0(i + 1) + 1 >= order(c),
               forall(lambda j: (implies(And(0 <= j, j < order(c)), v[j] == If(j < j0, d[i - order(c) + 2 + j], d[i - order(c) + 1 + j])), v[j])))


def pl(c):
    return c.obj('this', ST).prune_lists


def pruned(c, i):
    return And(pl(c).size == n(c), forall(lambda s: (implies(And(0 <= s, s < n(c)), pl(c)[s] == LEN(s, i)), pl(c)[s])))


pr = Spec(
    ST + '::initialize_fast_search_lists_for_pruning(int, %s*)' % SIK, unit=U, exits=NOEXIT,
    requires=common + [('the n-grams', lambda c: wf(c, ref(c), order(c))), ('windows', starts),
                       ('occurrences', lambda c: lens(c, False))],
    assigns=lambda c: [c.obj('this', ST).loc(x) for x in ('m_refmat', 'm_last_init_mapped', 'm_lists', 'prune_lists')] + [
        c.obj('this', 'Storage<int>').loc('m_lists2')],
    ensures=[('every n-gram has its number of occurrences', lambda c: pruned(c, D(c).size))],
    loops=[Loop([('window', lambda c: window(c, c.v('i'))), ('so far', lambda c: pruned(c, c.v('i')))]),
           Loop([('shifting', lambda c: shifting(c, c.v('i'))), ('so far', lambda c: pruned(c, c.v('i') + 1))])])


def l2(c):
    return c.obj('this', 'Storage<int>').m_lists2


def dims(c):
    return c.obj(P(c, 2), SIK).dims


def listed_(c, i, usecur):
    L = l2(c)
    return And(L.size == n(c),
               forall(lambda s: (implies(And(0 <= s, s < n(c)), L[s].size == LEN(s, i)), L[s].size)),
               forall(lambda s: (implies(And(0 <= s, s < n(c)), And(LEN(s, i) >= 0, LEN(s, i) <= i)), LEN(s, i))),
               forall(lambda s, p: (implies(And(0 <= s, s < n(c), 0 <= p, p < i, hit(c, p, s, True, usecur)), And(
                   LEN(s, p) >= 0, LEN(s, p) < LEN(s, i), L[s][LEN(s, p)] == D(c)[p])), LEN(s, p))))


def mapped(c, i, usecur):
    """contexts of one or two words: how often each word follows"""
    L = c.obj('this', ST).m_lists
    T = strmap.MapT(c.eng, 'int', 'int')

    def m(s):
        return spec.velem(c.obj('this', ST).loc('m_lists'), 48, s)

    def val(s, w):
        p = T.node(m(s), w).off(T.voff)
        return c.ld(p, 'i32')
    return And(L.size == n(c),
               forall(lambda s, w: (implies(And(0 <= s, s < n(c)), T.has(c.eng, c.st, m(s), w) == (CNT(s, w, i) > 0)), CNT(s, w, i))),
               forall(lambda s, w: (And(CNT(s, w, i) >= 0, CNT(s, w, i) <= i), CNT(s, w, i))),
               forall(lambda s, w: (implies(And(0 <= s, s < n(c), CNT(s, w, i) > 0), val(s, w) == CNT(s, w, i)), CNT(s, w, i))))


def cnts(c, usecur, boundary):
    return And(forall(lambda s, w: (CNT(s, w, 0) == 0, CNT(s, w, 0))) if boundary else forall(lambda s, w, i: (implies(i < order(c), CNT(s, w, i) == 0), CNT(s, w, i))),
               forall(lambda s, w, i: (implies(And(0 <= i, i < D(c).size), CNT(s, w, i + 1) == CNT(s, w, i) + If(
                   And(hit(c, i, s, True, usecur), D(c)[i] == w), 1, 0)), CNT(s, w, i + 1))))


def lists(usecur, boundary, name, small=False):
    listed = mapped if small else listed_
    b = [('clear symbol', lambda c: bnd(c) != -1)] if boundary else [('no clear symbol', lambda c: bnd(c) == -1)]

    def ptrs(eng, args, names, st):
        if not usecur:
            args = list(args)
            args[3] = Ptr(None)
        return args

    def window0(c, i):
        v, d = W(c), D(c)
        return And(v.size == order(c), order(c) - 1 <= i, i <= d.size,
                   forall(lambda j: (implies(And(0 <= j, j < order(c) - 1), v[j] == d[i - order(c) + 1 + j]), v[j])))
    A = [Loop([('first context', lambda c: And(
            W(c).size == c.v('i'), 0 <= c.v('i'), c.v('i') <= order(c) - 1, order(c) - 1 <= D(c).size, listed(c, 0, usecur),
            forall(lambda j: (implies(And(0 <= j, j < c.v('i')), W(c)[j] == D(c)[j]), W(c)[j]))))]),
         Loop([('window', lambda c: window0(c, c.v('i'))), ('so far', lambda c: listed(c, c.v('i'), usecur))]),
         Loop([('shifting', lambda c: shifting(c, c.v('i'))), ('so far', lambda c: listed(c, c.v('i') + 1, usecur))])]
    B = [Loop([('window', lambda c: window(c, c.v('i'))), ('so far', lambda c: listed(c, c.v('i'), usecur))]),
         Loop([('shifting', lambda c: shifting(c, c.v('i'))), ('so far', lambda c: listed(c, c.v('i') + 1, usecur))])]
    return Spec(
        ST + '::initialize_fast_search_lists(int, %s*, %s*)' % (SIK, SIK), unit=U, exits=NOEXIT, ptrs=ptrs, name='initialize_fast_search_lists, ' + name,
        modular=False,
        requires=common + b + [
            ('contexts of one or two words', lambda c: dims(c) <= 2) if small else ('contexts of three or more words', lambda c: dims(c) > 2),
            ('the contexts', lambda c: And(wf(c, ref(c), order(c) - 1), wf(c, cur(c), order(c)) if usecur else True)),
            ('windows', lambda c: starts(c, boundary)), ('occurrences', lambda c: cnts(c, usecur, boundary) if small else lens(c, True, usecur, boundary))],
        assigns=lambda c: [c.obj('this', ST).loc(x) for x in ('m_refmat', 'm_last_init_mapped', 'm_lists')] + [
            c.obj('this', 'Storage<int>').loc('m_lists2')],
        ensures=[('how often each word follows the context' if small else 'the list of a context holds the word of each of its occurrences, in order', lambda c: listed(c, D(c).size, usecur)),
                 ('lists of words', lambda c: c.obj('this', ST).m_last_init_mapped == (1 if small else 0))],
        loops=A + B)


def nptrs(init):
    def f(eng, args, names, st):
        # *this knows the contexts the lists were built for
        this = args[names.index('this')]
        off, t = eng.mod.di_members(eng.mod.find_di_type(ST))['m_refmat']
        st.cells[(this.region, this.off(off).path)] = Ptr('refmat')
        store.pointed(eng, Ptr('refmat'), SIK)
        args = list(args)
        if not init:
            args[1] = Ptr(None)
        return args
    return f


def nref(c):
    return store.pointed(c.eng, Ptr('refmat'), SIK)


def cv(c):
    return c.obj('this', ST).m_cur_vec


def ci(c):
    return c.obj('this', 'Storage<int>').m_cur_vec_idx2


def q(c):
    w = spec.V(c.eng, c.st, P(c, 1), c.eng.mod.find_di_type('vector<int, std::allocator<int> >'))
    return store.keyof(c.eng, c.st, spec.velem(w.p, 4, z3.IntVal(0)), nref(c).keysize(c.st, ()))


listmode = [('lists of words', lambda c: c.obj('this', ST).m_last_init_mapped == 0),
            ('the contexts', lambda c: And(nref(c).wf(c.st, ()), l2(c).size == nref(c).n(c.st, ())))]
NX = ST + '::fast_search_next(std::vector<int, std::allocator<int>>*, int*, int*)'
first = Spec(
    NX, unit=U, exits=NOEXIT, ptrs=nptrs(True), modular=False, name='fast_search_next, new context',
    requires=listmode + [('a context', lambda c: spec.V(c.eng, c.st, P(c, 1), c.eng.mod.find_di_type('vector<int, std::allocator<int> >')).size >= 1)],
    assigns=lambda c: [c.obj('this', ST).loc('m_cur_vec'), c.obj('this', 'Storage<int>').loc('m_cur_vec_idx2'), P(c, 2)],
    ensures=[('at the beginning of the list of the context, none when it is unknown', lambda c: (lambda s: And(
        cv(c) == If(s >= 0, s, -1), implies(s >= 0, ci(c) == 0)))(nref(c).slot(c.st, (), q(c))))])
nxt = Spec(
    NX, unit=U, exits=NOEXIT, ptrs=nptrs(False), modular=False, name='fast_search_next, next word',
    requires=listmode + [('a known context or none', lambda c: And(cv(c) >= -1, cv(c) < nref(c).n(c.st, ()), ci(c) >= 0, implies(cv(c) >= 0, ci(c) <= l2(c)[cv(c)].size)))],
    assigns=lambda c: [c.obj('this', 'Storage<int>').loc('m_cur_vec_idx2'), P(c, 2), P(c, 3)],
    ensures=[('the next word of the list, -1 after the last one', lambda c: (lambda o, more: And(
        c.ld(P(c, 2)) == If(more, l2(o)[cv(o)][ci(o)], -1), implies(more, And(c.ld(P(c, 3)) == 1, ci(c) == ci(o) + 1)),
        implies(Not(more), ci(c) == ci(o))))(c.old, And(cv(c.old) >= 0, ci(c.old) < l2(c.old)[cv(c.old)].size)))])

SPECS = [pr, first, nxt, lists(False, False, 'no clear symbol'), lists(True, False, 'no clear symbol, known n-grams left out'),
         lists(False, True, 'clear symbol'), lists(True, True, 'clear symbol, known n-grams left out'),
         lists(True, False, 'no clear symbol, known n-grams left out, short contexts', True), lists(True, True, 'clear symbol, known n-grams left out, short contexts', True)]


def configure(eng, spec):
    moc.hints(eng)


HARNESS = 'c21.cc'
BOUNDED = 'random texts, contexts, orders with and without sentence starts: walking the lists of every context, twice rebuilt'
DECIDES = 'initialize_fast_search_lists (all modes): the list of every context holds the words of its occurrences, in order; the number of occurrences of every n-gram; fast_search_next walks a list of words'
BOUNDED_FUNCTIONS = ['Storage_t::init_fsl_file', 'Storage_t::fast_search_next on the lists of one- and two-word contexts']
