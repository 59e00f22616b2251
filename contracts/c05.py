"""C05: sorting n-grams gives lexicographic order and keeps the data attached."""
import re
import z3
from sym import Spec, Loop, Ptr, I, R, nsel, Ctx
from spec import forall, implies, And, Or, Not, If, V, velem
import stl

POS = z3.Function('gram_start', I, I)          # POS(a) = a * order
D = z3.Function('first_difference', I, I, I)   # first position where grams a and b differ (order if none)


def gs(c):
    return c.obj('this', 'GramSorter')


def order(c):
    return gs(c).m_order


def ix(c, i):
    return gs(c).m_indices[i]


def N(c):
    return gs(c).m_indices.size


def W(c, a, k):
    """word k of the stored gram number a"""
    return gs(c).m_grams[POS(a) + k]


def posdef(c, o=None):
    o = order(c) if o is None else o
    return And(POS(0) == 0, forall(lambda a: (And(POS(a) == a * o, POS(a + 1) == POS(a) + o), POS(a))))


def lt(c, a, b, o=None):
    """gram a is lexicographically before gram b"""
    o = order(c) if o is None else o
    return And(D(a, b) < o, W(c, a, D(a, b)) < W(c, b, D(a, b)))


def ddef(c, o=None):
    o = order(c) if o is None else o
    n = N(c)
    return And(
        forall(lambda a, b: (And(0 <= D(a, b), D(a, b) <= o, D(a, b) == D(b, a)), D(a, b))),
        forall(lambda a, b: (implies(And(0 <= a, a < n, 0 <= b, b < n, D(a, b) < o),
                                     W(c, a, D(a, b)) != W(c, b, D(a, b))), D(a, b))),
        forall(lambda a, b, q: (implies(And(0 <= a, a < n, 0 <= b, b < n, POS(a) <= q, q < POS(a) + D(a, b)),
                                        gs(c).m_grams[q] == gs(c).m_grams[q - POS(a) + POS(b)]),
                                [(D(a, b), gs(c).m_grams[q])])))


def sizes(c):
    return And(N(c) >= 0, order(c) >= 1, gs(c).m_grams.size == POS(N(c)), gs(c).m_data.size == N(c),
               N(c) < 2 ** 31 - 2, POS(N(c)) < 2 ** 31 - 2)


def perm(c):
    """every stored gram is listed exactly once"""
    return And(forall(lambda i: (implies(And(0 <= i, i < N(c)), And(0 <= ix(c, i), ix(c, i) < N(c))), ix(c, i))),
               forall(lambda i, j: (implies(And(0 <= i, i < j, j < N(c)), ix(c, i) != ix(c, j)), [(ix(c, i), ix(c, j))])))


def asadded(c):
    return forall(lambda i: (implies(And(0 <= i, i < N(c)), ix(c, i) == i), ix(c, i)))


def sorted_(c):
    return forall(lambda i, j: (implies(And(0 <= i, i < j, j < N(c)), Not(lt(c, ix(c, j), ix(c, i)))),
                                [(ix(c, i), ix(c, j))]))


def flag(c):
    return gs(c).m_sorted != 0


INV = [('sizes', sizes), ('every gram listed once', perm),
       ('flag means in order', lambda c: implies(flag(c), sorted_(c)))]
NOEXIT = lambda c: z3.BoolVal(False)

def base(c, p):
    return c.a(p).idx[-1]


def at(c, p, q):
    """element with absolute index q of the array p points into"""
    x = c.a(p)
    return c.ld(Ptr(x.region, x.path, x.idx[:-1] + (q,)))


def eqto(c, k):
    """the first k elements are equal"""
    return forall(lambda q: (implies(And(base(c, 'i1') <= q, q < base(c, 'i1') + k),
                                     at(c, 'i1', q) == at(c, 'i2', q - base(c, 'i1') + base(c, 'i2'))), at(c, 'i1', q)))


def differ(c, less):
    x, y = at(c, 'i1', base(c, 'i1') + K), at(c, 'i2', base(c, 'i2') + K)
    return z3.Exists([K], And(0 <= K, K < c.a('order'), x < y if less else x > y, eqto(c, K)))


def lptrs(eng, args, names, st):
    return [args[0].newstep(4, z3.Int('base1')), args[1].newstep(4, z3.Int('base2')), args[2]]


def note(c):
    """remember the argument positions of this call (for the lemmas of the caller)"""
    mark = z3.Bool('call!%d' % next(c.eng.fresh_n)) == z3.BoolVal(True)
    if c.a('i1').region == 'this':
        c.eng.__dict__.setdefault('sorter_calls', []).append((mark, base(c, 'i1'), base(c, 'i2')))
        return mark
    return z3.BoolVal(True)


lessthan = Spec(
    'GramSorter::lessthan(int const*, int const*, int)', unit='GramSorter.cc', exits=NOEXIT, assigns=lambda c: [], ptrs=lptrs,
    ensures=[('arguments', lambda c: note(c)), ('true means lexicographically smaller', lambda c: implies(c.result, differ(c, True))),
             ('false means equal or greater', lambda c: implies(Not(c.result), Or(eqto(c, c.a('order')), differ(c, False))))],
    loops=[Loop([('equal so far', lambda c: And(c.v('i') >= 0, Or(c.v('i') <= c.a('order'), c.v('i') == 0), eqto(c, c.v('i'))))])])
K = z3.Int('K')


def sptrs(eng, args, names, st):
    # the comparator refers to the grams of some sorter `s`
    mem = eng.mod.di_members(eng.mod.find_di_type('GramSorter'))
    so = eng.mod.di_members(eng.mod.find_di_type('Sorter'))
    p = args[0]
    st.cells[(p.region, p.off(so['m_grams'][0]).path)] = Ptr('s', (0,)).off(mem['m_grams'][0])
    return args


def GS(c):
    return c.obj(Ptr('s', (0,)), 'GramSorter')


less = Spec(
    'GramSorter::Sorter::operator()(int const&, int const&)', unit='GramSorter.cc', exits=NOEXIT, ptrs=sptrs,
    requires=[('the grams exist', lambda c: sview(c, lambda d: And(
        sizes(d), posdef(d), 0 <= c.ld(c.a('a')), c.ld(c.a('a')) < N(d), 0 <= c.ld(c.a('b')), c.ld(c.a('b')) < N(d),
        c.obj('this', 'Sorter').m_order == order(d)))),
        ('definition of the first difference', lambda c: sview(c, ddef))],
    assigns=lambda c: [],
    ensures=[('lexicographic comparison', lambda c: sview(c, lambda d: c.result == lt(d, c.ld(c.a('a')), c.ld(c.a('b')))))])


def sview(c, f):
    return f(Ctx(c.eng, c.st, c.st, [('this', Ptr('s', (0,)))]))


def sort_rule(eng, st, args, info):
    """std::sort(begin, end, comparator): a permutation in which no later element is
    less than an earlier one, for a strict weak order (an obligation here); the
    comparator is used by its contract"""
    eng.assumed.add('std::sort')
    eng.used_contracts.add(less.fn)
    c = Ctx(eng, st, eng.entry, eng.rootargs)
    this = c.a('this')
    mem = eng.mod.di_members(eng.mod.find_di_type('GramSorter'))
    want = this.off(mem['m_grams'][0])
    vix = this.off(mem['m_indices'][0])
    first, last, grams, o = args
    ok = (isinstance(first, Ptr) and isinstance(last, Ptr) and first.region == vix.region and
          last.path == first.path == velem(vix, 4, z3.IntVal(0)).path and isinstance(grams, Ptr) and
          (grams.region, grams.path) == (want.region, want.path))
    eng.oblige(st, 'call-pre', 'the sort runs over the indices and compares grams', z3.BoolVal(bool(ok)))
    if not ok:
        return stl.ret(st)
    eng.oblige(st, 'call-pre', 'the whole index array is sorted', And(first.idx[-1] == 0, last.idx[-1] == N(c)))
    eng.oblige(st, 'call-pre', 'comparator length', o == order(c))
    rng = lambda *q: And(*[And(0 <= x, x < N(c)) for x in q])
    eng.oblige(st, 'lemma', 'comparator is irreflexive', forall(lambda a: implies(rng(a), Not(lt(c, a, a)))))
    eng.oblige(st, 'lemma', 'comparator is asymmetric', forall(lambda a, b: implies(And(rng(a, b), lt(c, a, b)), Not(lt(c, b, a)))))
    a, b, d = z3.Ints('a_ b_ d_')
    eng.oblige(st, 'lemma', 'comparator is transitive', z3.Implies(And(rng(a, b, d), lt(c, a, b), lt(c, b, d)), lt(c, a, d)))
    eng.oblige(st, 'lemma', 'incomparability is transitive', z3.Implies(And(
        rng(a, b, d), Not(lt(c, a, b)), Not(lt(c, b, a)), Not(lt(c, b, d)), Not(lt(c, d, b))), Not(lt(c, a, d))))
    s2 = st.copy()
    k = (first.region, first.path)
    eng.note_write(k)
    old = nsel(eng.cell(st, k[0], k[1], I), first.idx[:-1])
    new = eng.fresh('sorted', old.sort())
    pi = eng.ufn('perm%d' % next(eng.fresh_n), I, I)
    n = N(c)
    s2.cells[k] = stl.nstore(eng.cell(st, k[0], k[1], I), first.idx[:-1], new)
    s2.assume(forall(lambda i: (implies(And(0 <= i, i < n), And(0 <= pi(i), pi(i) < n, new[i] == old[pi(i)])), new[i])))
    s2.assume(forall(lambda i, j: (implies(And(0 <= i, i < j, j < n), pi(i) != pi(j)), [(pi(i), pi(j))])))
    c2 = Ctx(eng, s2, eng.entry, eng.rootargs)
    s2.assume(sorted_(c2))
    return stl.ret(s2)


sort = Spec(
    'GramSorter::sort()', unit='GramSorter.cc', exits=NOEXIT,
    requires=INV + [('definition of gram positions', posdef), ('definition of the first difference', ddef)],
    assigns=lambda c: [gs(c).loc('m_indices')],
    ensures=[('lexicographic order', sorted_), ('every gram listed once', perm), ('sizes', sizes)])

def monopos(c):
    return forall(lambda a: (implies(And(0 <= a, a < N(c)), And(0 <= POS(a), POS(a) + order(c) <= POS(N(c)))), POS(a)))


def add_ghost(c):
    """lemmas towards sortedness of the extended list"""
    st, e = c.st, c.eng
    # name the final arrays
    for k in list(st.cells):
        if k[0] == c.a('this').region and z3.is_array(st.cells[k]):
            v = e.fresh('final', st.cells[k].sort())
            st.assume(v == st.cells[k])
            st.cells[k] = v
    st.assume(ddef(c))
    n = N(c) - 1
    a, b, d = z3.Ints('a_ b_ d_')
    rng = lambda *q: And(*[And(0 <= x, x <= n) for x in q])
    # the lemma holds for any grams: proved for arbitrary ones
    from sym import State
    s0 = State()
    g = Ctx(e, s0, s0, e.rootargs)
    r0 = lambda *q: And(*[And(0 <= x, x < N(g)) for x in q])
    s0.assume(ddef(g))
    e.oblige(s0, 'lemma', 'not-less is transitive', z3.Implies(And(
        r0(a, b, d), Not(lt(g, a, b)), Not(lt(g, b, d))), Not(lt(g, a, d))))
    st.assume(forall(lambda a, b, d: (implies(And(rng(a, b, d), Not(lt(c, a, b)), Not(lt(c, b, d))), Not(lt(c, a, d))),
                                      [(D(a, b), D(b, d))])))
    l = And(flag(c), n >= 1)
    calls = [x for x in e.__dict__.get('sorter_calls', []) if any(x[0] is y for y in st.pc)]
    for mark, b1, b2 in calls:
        for nm, g in (('nothing overflows: start of the new gram', b1 == POS(n)),
                      ('nothing overflows: start of its predecessor', b2 == POS(n - 1))):
            e.oblige(st, 'lemma', nm, g)
            st.assume(g)
    e.oblige(st, 'lemma', 'the new gram is not before its predecessor', implies(l, Not(lt(c, n, n - 1))))
    st.assume(implies(l, Not(lt(c, n, n - 1))))
    l2 = forall(lambda a, b: (implies(And(0 <= a, a < n, 0 <= b, b < n), lt(c, a, b) == lt(c.old, a, b)), D(a, b)))
    e.oblige(st, 'lemma', 'the order of earlier grams is unchanged', l2)
    st.assume(l2)
    l3 = implies(l, forall(lambda i: (implies(And(0 <= i, i < n), Not(lt(c, n, i))), D(n, i))))
    i0 = z3.Int('i_')
    e.oblige(st, 'lemma', 'the new gram is not before any other', implies(And(l, 0 <= i0, i0 < n, i0 != n - 1,
             And(D(n, n - 1) >= 0, D(n - 1, i0) >= 0, ix(c.old, i0) == i0, ix(c.old, n - 1) == n - 1)), Not(lt(c, n, i0))))
    st.assume(l3)


add_gram = Spec(
    'GramSorter::add_gram(std::deque<int, std::allocator<int>> const&, float, float)', unit='GramSorter.cc',
    requires=INV + [('as added so far', asadded), ('definition of gram positions', posdef),
                    ('positions are monotone', monopos),
                    ('room', lambda c: POS(N(c) + 1) < 2 ** 31 - 4)],
    ghost=add_ghost,
    assigns=lambda c: [gs(c).loc(m) for m in ('m_indices', 'm_grams', 'm_data', 'm_sorted')],
    exits=lambda c: gramobj(c).size != order(c),
    ensures=[
        ('the right length', lambda c: gramobj(c.old).size == order(c)),
        ('one more gram', lambda c: And(N(c) == N(c.old) + 1, order(c) == order(c.old), sizes_weak(c))),
        ('the gram is stored with its data', lambda c: And(
            forall(lambda k: (implies(And(0 <= k, k < order(c)), W(c, N(c) - 1, k) == gramobj(c.old)[k]), W(c, N(c) - 1, k))),
            gs(c).m_data[N(c) - 1].log_prob == c.a('log_prob'), gs(c).m_data[N(c) - 1].back_off == c.a('back_off'))),
        ('earlier grams and data unchanged', lambda c: And(
            forall(lambda q: (implies(And(0 <= q, q < POS(N(c.old))), gs(c).m_grams[q] == gs(c.old).m_grams[q]), gs(c).m_grams[q])),
            forall(lambda a: (implies(And(0 <= a, a < N(c.old)), And(
                gs(c).m_data[a].log_prob == gs(c.old).m_data[a].log_prob,
                gs(c).m_data[a].back_off == gs(c.old).m_data[a].back_off)), gs(c).m_data[a].log_prob)))),
        ('as added', asadded), ('every gram listed once', perm),
        ('flag means in order', lambda c: implies(flag(c), sorted_(c)))],
    loops=[Loop([('copied so far', lambda c: And(
        c.v('i') >= 0, c.v('i') <= order(c.old),
        gs(c).m_grams.size == POS(N(c.old)) + c.v('i'), N(c) == N(c.old) + 1,
        forall(lambda q: (implies(And(0 <= q, q < POS(N(c.old))), gs(c).m_grams[q] == gs(c.old).m_grams[q]), gs(c).m_grams[q])),
        forall(lambda k: (implies(And(0 <= k, k < c.v('i')), W(c, N(c.old), k) == gramobj(c.old)[k]), W(c, N(c.old), k)))))])])


def sizes_weak(c):
    return And(gs(c).m_grams.size == POS(N(c)), gs(c).m_data.size == N(c))


def gramobj(c):
    import tree
    return V(c.eng, c.st, c.a('gram'), tree.gram_type(c.eng))


reset = Spec(
    'GramSorter::reset(int, int)', unit='GramSorter.cc', exits=NOEXIT,
    requires=[('order', lambda c: And(c.a('order') >= 1, c.a('order') < 2 ** 31 - 2)),
              ('definition of gram positions', lambda c: posdef(c, c.a('order')))],
    assigns=lambda c: [gs(c).loc(m) for m in ('m_indices', 'm_grams', 'm_data', 'm_sorted', 'm_order')],
    ensures=[('empty', lambda c: And(N(c) == 0, order(c) == c.a('order')))] + INV)

ctor = Spec(
    'GramSorter::GramSorter(int, int)', unit='GramSorter.cc', exits=NOEXIT, modular=False, requires=reset.requires,
    assigns=reset.assigns, ensures=reset.ensures)


def inrange(c):
    return And(0 <= c.a('index'), c.a('index') < N(c))


data = Spec(
    'GramSorter::data(int)', unit='unit:sorter.cc', assigns=lambda c: [], modular=False,
    requires=[('sizes', sizes), ('every gram listed once', perm), ('index', inrange)],
    exits=NOEXIT,
    ensures=[('data of that gram', lambda c: And(c.result[0] == gs(c).m_data[ix(c, c.a('index'))].log_prob,
                                                 c.result[1] == gs(c).m_data[ix(c, c.a('index'))].back_off))])


def res(c):
    import tree
    return V(c.eng, c.st, c.a('agg.result'), tree.gram_type(c.eng))


gram = Spec(
    'GramSorter::gram(int)', unit='unit:sorter.cc', modular=False,
    requires=[('sizes', sizes), ('every gram listed once', perm), ('index', inrange), ('definition of gram positions', posdef),
              ('positions are monotone', monopos)],
    assigns=lambda c: [c.a('agg.result')],
    exits=NOEXIT,
    ensures=[('words of that gram', lambda c: And(res(c).size == order(c), forall(lambda k: (implies(
        And(0 <= k, k < order(c)), res(c)[k] == W(c, ix(c, c.a('index')), k)), res(c)[k]))))],
    loops=[Loop([('copied so far', lambda c: And(
        c.v('i') >= 0, c.v('i') <= order(c), res(c).size == order(c), forall(lambda k: (implies(
            And(0 <= k, k < c.v('i')), res(c)[k] == W(c, ix(c, c.a('index')), k)), res(c)[k]))))])])

num_grams = Spec('GramSorter::num_grams()', unit='unit:sorter.cc', requires=[('sizes', sizes)], assigns=lambda c: [], exits=NOEXIT,
                 ensures=[('number of grams', lambda c: c.result == N(c))])


def configure(eng, s):
    eng.stl.rules.append((r'(void )?std::sort<__gnu_cxx::__normal_iterator<int\*.*GramSorter::Sorter', sort_rule))


SPECS = [lessthan, less, reset, ctor, add_gram, sort, data, gram, num_grams]
HARNESS = 'c05.cc'
BOUNDED = 'random collections (orders 1..5, up to 400 n-grams, small word ranges so that ties occur, sorted and unsorted insertion) against a stable reference'
BOUNDED_FUNCTIONS = []
TIMEOUT = 15
