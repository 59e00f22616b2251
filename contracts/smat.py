"""Contracts of the sparse count store (sparse_matrix.c).

Key: content of key_size bytes, Val: content of size_of_entry bytes.  hash_of
is the (uninterpreted) function computed by CalculateHashIndex.  The ghost
array pos maps every key to its entry (or -1); the abstract value of the store
is view(k) = data[pos[k]] if pos[k] >= 0, else the default value."""
import z3
from sym import Spec, Loop, Ptr, I, R, Ctx
from spec import qall, implies, And, Or, Not, If
from cmem import CMem

Key, Val = z3.DeclareSort('Key'), z3.DeclareSort('Val')
H = z3.Function('hash_of', Key, I)
PosS = z3.ArraySort(Key, I)
UNIT = 'sparse_matrix.c'
MEMB = {}


def offs(eng):
    k = id(eng.mod)
    if k not in MEMB:
        MEMB[k] = {n: o for n, (o, t) in eng.mod.di_members(eng.mod.find_di_type('matrix')).items()}
    return MEMB[k]


class M:
    """the store behind pointer `base` in state c.st"""

    def __init__(self, c, base, arrs=None):
        self.c, self.e, self.st, self.base = c, c.eng, c.st, base
        self.o = offs(c.eng)

    def fld(self, n, t='i32'):
        return self.c.ld(self.base.off(self.o[n]), t)

    def ptr(self, n):
        return self.e.loadptr(self.st, self.base.off(self.o[n]))

    N = property(lambda s: s.fld('num_entries'))
    ds = property(lambda s: s.fld('datasize'))
    hs = property(lambda s: s.fld('hashsize'))
    ks = property(lambda s: s.fld('key_size', 'i64'))
    soe = property(lambda s: s.fld('size_of_entry', 'i64'))

    def arr(self, n, i):
        return self.c.ld(self.ptr(n).step(4, i))

    def hash(self, i):
        return self.arr('hash', i)

    def next(self, i):
        return self.arr('next', i)

    def prev(self, i):
        return self.arr('prev', i)

    def cap(self, n):
        return self.e.memhook.cap(self.st, self.ptr(n))

    @property
    def keys(self):
        p = self.ptr('keys')
        return self.e.memhook.slots(self.st, p.region, p.path, Key)[1]

    @property
    def data(self):
        p = self.ptr('data')
        return self.e.memhook.slots(self.st, p.region, p.path, Val)[1]

    def key(self, i):
        return z3.Select(self.keys, i)

    def val(self, i):
        return z3.Select(self.data, i)

    @property
    def dflt(self):
        return self.e.memhook.get(self.st, self.ptr('default_value'), Val)

    @property
    def poskey(self):
        return (self.base.region, self.base.path + ('G',))

    @property
    def pos(self):
        k = self.poskey
        v = self.st.cells.get(k)
        return v if v is not None else self.e.initcell(self.st, k[0], k[1], PosS)

    def setpos(self, v):
        self.e.note_write(self.poskey)
        self.st.cells[self.poskey] = v

    def at(self, k):
        return z3.Select(self.pos, k)

    def view(self, k):
        return If(self.at(k) >= 0, self.val(self.at(k)), self.dflt)

    def lt(self, a, b):
        return self.e.memhook.lt(Key)(a, b)


def qi(f, n=1):
    return qall(f, I, n)


def qk(f):
    return qall(f, Key, 1)


def hrange(m):
    return qk(lambda k: (And(H(k) >= 0, H(k) < m.hs), H(k)))


def sizes(m, caps=True):
    return And(m.N >= 0, m.N <= m.ds, m.hs >= 1, m.hs < 2 ** 31, m.ks >= 1, m.soe >= 1,
               m.cap('keys') >= m.ds, m.cap('data') >= m.ds,
               m.cap('next') >= 4 * m.ds, m.cap('prev') >= 4 * m.ds, m.cap('hash') >= 4 * m.hs)


INV = [
    ('sizes', sizes),
    ('bucket heads', lambda m: qi(lambda b: (implies(And(0 <= b, b < m.hs), Or(m.hash(b) == -1, And(
        m.hash(b) >= 0, m.hash(b) < m.N, H(m.key(m.hash(b))) == b, m.prev(m.hash(b)) == b))), m.hash(b)))),
    ('head is the smallest', lambda m: qi(lambda i: (implies(And(0 <= i, i < m.N), And(
        m.hash(H(m.key(i))) >= 0, Not(m.lt(m.key(i), m.key(m.hash(H(m.key(i)))))))), m.key(i)))),
    ('next links', lambda m: qi(lambda i: (implies(And(0 <= i, i < m.N), Or(m.next(i) == -1, And(
        m.next(i) >= 0, m.next(i) < m.N, H(m.key(m.next(i))) == H(m.key(i)),
        m.lt(m.key(i), m.key(m.next(i))), m.prev(m.next(i)) == -i - 1))), m.next(i)))),
    ('nothing between neighbours', lambda m: qi(lambda i, e: (implies(
        And(0 <= i, i < m.N, 0 <= e, e < m.N, m.next(i) >= 0, H(m.key(i)) == H(m.key(e))),
        Not(And(m.lt(m.key(i), m.key(e)), m.lt(m.key(e), m.key(m.next(i)))))), [(m.next(i), m.key(e))]), 2)),
    ('last is the largest', lambda m: qi(lambda i, e: (implies(
        And(0 <= i, i < m.N, 0 <= e, e < m.N, m.next(i) < 0, H(m.key(i)) == H(m.key(e))),
        Not(m.lt(m.key(i), m.key(e)))), [(m.next(i), m.key(e))]), 2)),
    ('prev links', lambda m: qi(lambda i: (implies(And(0 <= i, i < m.N), And(
        implies(m.prev(i) >= 0, And(m.prev(i) < m.hs, m.hash(m.prev(i)) == i)),
        implies(m.prev(i) < 0, And(-m.prev(i) - 1 < m.N, m.next(-m.prev(i) - 1) == i)))), m.prev(i)))),
    ('positions of the entries', lambda m: qi(lambda i: (implies(
        And(0 <= i, i < m.N), m.at(m.key(i)) == i), m.key(i)))),
    ('entries of the positions', lambda m: qk(lambda k: (And(m.at(k) >= -1, implies(
        m.at(k) >= 0, And(m.at(k) < m.N, m.key(m.at(k)) == k))), m.at(k)))),
]


def sub(name, f, get=lambda c: M(c, c.a('m'))):
    return (name, lambda c: f(get(c)))


def inv(get=lambda c: M(c, c.a('m')), pre=''):
    return [(pre + n, (lambda f: lambda c: f(get(c)))(f)) for n, f in INV]


def hf(get=lambda c: M(c, c.a('m'))):
    return [('hash values are below the hash size', lambda c: hrange(get(c)))]


def m_(c, n='m'):
    return M(c, c.a(n))


def keyof(c, p='key'):
    return c.eng.memhook.get(c.st, c.a(p), Key)


def valof(c, p='value'):
    return c.eng.memhook.get(c.st, c.a(p), Val)


FIELDS = ['datasize', 'keys', 'data', 'next', 'prev', 'num_entries', 'hash']


def touched(c, base=None, which=FIELDS):
    b = base if base is not None else c.a('m')
    o = offs(c.eng)
    return [b.off(o[n]) for n in which] + [Ptr(b.region, b.path + ('G',), b.idx)]


def configure(eng, spec):
    h = CMem(eng)
    eng.memhook = h
    from sym import State
    st = State()
    names = {'m': Ptr('m'), 'mat': Ptr('mat'), '@sm_STm': Ptr('@sm_STm', (0, 'D', 0)),
             '@OrderedStepThrough.sm': Ptr('@OrderedStepThrough.sm', (0, 'D', 0)),
             '@qindcmp.m': Ptr('@qindcmp.m', (0, 'D', 0)),
             'this': Ptr('this', (0, 'D', 0))}
    o = offs(eng)
    for n, b in names.items():
        ks = eng.initcell(st, b.region, b.path[:-1] + (o['key_size'],), I)
        soe = eng.initcell(st, b.region, b.path[:-1] + (o['size_of_entry'],), I)

        def at(f):
            return Ptr(b.region, b.path[:-1] + (o[f], 'D', 0))
        h.table(at('keys'), ks, Key)
        h.table(at('data'), soe, Val)
        h.blobs[(b.region, at('default_value').path)] = Val
        h.sizes += [(ks, Key), (soe, Val)]
        for f in ('hash', 'next', 'prev'):
            h.array(at(f))
    h.lt(Key)
    QM = Ptr('@qindcmp.m')

    def cm(st):
        return M(Ctx(eng, st, st, []), eng.loadptr(st, QM))
    h.comparators = {'qindcmp': (lambda st, x: And(x >= 0, x < cm(st).N),
                                 lambda st, x, y: cm(st).lt(cm(st).key(x), cm(st).key(y)))}
    h.array(Ptr('@OrderedStepThrough.sarray', (0, 'D', 0)))
    if spec.fn == 'CreateMatrix':
        h.default = Val


calc = Spec(
    'CalculateHashIndex', unit=UNIT,
    requires=[('sizes', lambda c: And(m_(c).hs >= 1, m_(c).hs < 2 ** 31, m_(c).ks >= 1))],
    reads=lambda c: [(c.a('m').off(offs(c.eng)['key_size']), None), (c.a('m').off(offs(c.eng)['hashsize']), None),
                     (c.a('key').step(1, z3.IntVal(0)), lambda ix: And(ix[-1] >= 0, ix[-1] < m_(c).ks))],
    ensures=[('in range', lambda c: And(c.result >= 0, c.result < m_(c).hs))],
    loops=[Loop([('index', lambda c: c.v('i') >= 0)])])
# justified by the reads clause: the result is a function of the key bytes
calc.determ = [('function of the key', lambda c: c.result == H(keyof(c)))]


def eqbelow(a, b, n, f):
    """f(a, i) == f(b, i) for 0 <= i < n"""
    return qi(lambda i: (implies(And(0 <= i, i < n), f(a, i) == f(b, i)), f(a, i)))


KEY, VAL, NEXT, PREV, HASH = (lambda m, i: m.key(i)), (lambda m, i: m.val(i)), (lambda m, i: m.next(i)), \
    (lambda m, i: m.prev(i)), (lambda m, i: m.hash(i))

new_entry = Spec(
    'NewEntry', unit=UNIT,
    requires=[('sizes', lambda c: sizes(m_(c)))],
    assigns=lambda c: [c.a('m').off(offs(c.eng)[n]) for n in
                       ('datasize', 'keys', 'data', 'next', 'prev', 'num_entries')],
    ensures=[
        ('one more entry', lambda c: And(c.result == m_(c.old).N, m_(c).N == c.result + 1)),
        ('sizes', lambda c: sizes(m_(c))),
        ('keys kept', lambda c: eqbelow(m_(c), m_(c.old), m_(c.old).N, KEY)),
        ('data kept', lambda c: eqbelow(m_(c), m_(c.old), m_(c.old).N, VAL)),
        ('links kept', lambda c: And(eqbelow(m_(c), m_(c.old), m_(c.old).N, NEXT),
                                     eqbelow(m_(c), m_(c.old), m_(c.old).N, PREV)))])


def rem_post(get, idx, full=True):
    """what removing entry idx does"""
    def n(c):
        return get(c), get(c.old), idx(c)
    return inv(get) + [
        ('one entry less', lambda c: n(c)[0].N == n(c)[1].N - 1),
        ('other entries kept, the last one moved into the gap', lambda c: (lambda m, o, i: And(
            qi(lambda j: (implies(And(0 <= j, j < m.N, j != i), And(m.key(j) == o.key(j), m.val(j) == o.val(j))),
                          [m.key(j), m.val(j)])),
            implies(i < m.N, And(m.key(i) == o.key(m.N), m.val(i) == o.val(m.N)))))(*n(c))),
        ('exactly that key removed', lambda c: (lambda m, o, i: And(
            m.at(o.key(i)) == -1,
            qk(lambda k: (implies(k != o.key(i), And(
                (m.at(k) >= 0) == (o.at(k) >= 0),
                implies(m.at(k) >= 0, m.val(m.at(k)) == o.val(o.at(k))),
                m.at(k) == If(And(o.at(k) == m.N), i, o.at(k)))), m.at(k)))))(*n(c)))]


def rem_ghost(c):
    m, o, i = m_(c), m_(c.old), c.a('idx')
    p = z3.Store(o.pos, o.key(o.N - 1), i)
    m.setpos(z3.Store(If(i == o.N - 1, o.pos, p), o.key(i), z3.IntVal(-1)))


remove = Spec(
    'RemoveEntryIdx', unit=UNIT,
    requires=[('entry', lambda c: And(c.a('idx') >= 0, c.a('idx') < m_(c).N))] + hf() + inv(),
    assigns=lambda c: touched(c, None, ['keys', 'data', 'next', 'prev', 'num_entries', 'hash']),
    ghost=rem_ghost,
    ensures=rem_post(m_, lambda c: c.a('idx')))


def find_ghost(c):
    m, o = m_(c), m_(c.old)
    m.setpos(If(m.N > o.N, z3.Store(m.pos, keyof(c.old), o.N), m.pos))


def same_map(m, o):
    """nothing changed"""
    return And(m.N == o.N, m.pos == o.pos, m.keys == o.keys, m.data == o.data)


def others(m, o, key):
    """every other key keeps its value"""
    return qk(lambda k: (implies(k != key, And((m.at(k) >= 0) == (o.at(k) >= 0), implies(
        m.at(k) >= 0, m.val(m.at(k)) == o.val(o.at(k))))), [m.at(k), o.at(k)]))


find_entry = Spec(
    'FindEntry', unit=UNIT, timeout=20,
    requires=hf() + inv(),
    assigns=lambda c: touched(c),
    ghost=find_ghost,
    loops=[Loop([('on the chain', lambda c: And(
        c.v('idx') >= 0, c.v('idx') < m_(c).N, H(m_(c).key(c.v('idx'))) == H(keyof(c)),
        Not(m_(c).lt(keyof(c), m_(c).key(c.v('idx'))))))])],
    ensures=inv() + [
        ('lookup only: found or -1, nothing changed', lambda c: implies(c.a('create') == 0, And(
            c.result == If(m_(c.old).at(keyof(c)) >= 0, m_(c.old).at(keyof(c)), -1),
            same_map(m_(c), m_(c.old))))),
        ('create: entry of the key', lambda c: implies(c.a('create') > 0, And(
            c.result == m_(c).at(keyof(c)), c.result >= 0,
            m_(c).N == m_(c.old).N + If(m_(c.old).at(keyof(c)) >= 0, 0, 1),
            m_(c).val(c.result) == m_(c.old).view(keyof(c)),
            implies(m_(c.old).at(keyof(c)) < 0, c.result == m_(c.old).N),
            implies(m_(c.old).at(keyof(c)) >= 0, c.result == m_(c.old).at(keyof(c)))))),
        ('create: entries kept', lambda c: implies(c.a('create') > 0, And(
            eqbelow(m_(c), m_(c.old), m_(c.old).N, KEY), eqbelow(m_(c), m_(c.old), m_(c.old).N, VAL)))),
        ('delete: entry gone', lambda c: implies(c.a('create') < 0, And(
            c.result == -1, m_(c).at(keyof(c)) < 0,
            m_(c).N == m_(c.old).N - If(m_(c.old).at(keyof(c)) >= 0, 1, 0)))),
        ('other keys unaffected', lambda c: others(m_(c), m_(c.old), keyof(c)))])


# ---------------------------------------------------------------- map level
def set_post(c, o, key, v, drop=True):
    """the key reads v, every other key as before, no entry for the default value"""
    return [
        ('key has the new value', m_(c).view(key) == v),
        ('other keys unaffected', others(m_(c), m_(c.old), key)),
        ('no entry for the default value', implies(v == m_(c).dflt, m_(c).at(key) < 0)),
        ('number of entries', m_(c).N == m_(c.old).N - If(m_(c.old).at(key) >= 0, 1, 0) +
            If(v == m_(c).dflt, 0, 1))]


def pick(i, post):
    return lambda c: post(c)[i][1]


def posts(post, n=4):
    names = ['key has the new value', 'other keys unaffected', 'no entry for the default value', 'number of entries']
    return [(names[i], pick(i, post)) for i in range(n)]


set_raw = Spec(
    'SetRawValue', unit=UNIT, timeout=20, requires=hf() + inv(), assigns=lambda c: touched(c),
    ensures=inv() + posts(lambda c: set_post(c, c.old, keyof(c.old), valof(c.old))))

get_raw = Spec(
    'GetRawValue', unit=UNIT, requires=hf() + inv(),
    assigns=lambda c: touched(c) + [c.a('value')],
    ensures=inv() + [('reads the value of the key', lambda c: valof(c) == m_(c.old).view(keyof(c.old))),
                     ('store unchanged', lambda c: same_map(m_(c), m_(c.old)))])


def asof(c, leaf):
    return c.eng.memhook.conv(Val, leaf)


def setter(T, leaf):
    return Spec('SetValue' + T, unit=UNIT, timeout=20, requires=hf() + inv(), assigns=lambda c: touched(c),
                ensures=inv() + posts(lambda c: set_post(c, c.old, keyof(c.old, 'indices'),
                                                         asof(c, leaf)[1](c.a('value')))))


def getter(T, leaf):
    return Spec('GetValue' + T, unit=UNIT, requires=hf() + inv(), assigns=lambda c: touched(c),
                ensures=inv() + [
                    ('reads the value of the key', lambda c: c.result == asof(c, leaf)[0](
                        m_(c.old).view(keyof(c.old, 'indices')))),
                    ('store unchanged', lambda c: same_map(m_(c), m_(c.old)))])


def incr(T, leaf):
    def new(c):
        f, g = asof(c, leaf)
        return g(f(m_(c.old).view(keyof(c.old, 'indices'))) + c.a('value'))
    return Spec('Increment' + T, unit=UNIT, timeout=20, requires=hf() + inv(), assigns=lambda c: touched(c),
                ensures=inv() + posts(lambda c: set_post(c, c.old, keyof(c.old, 'indices'), new(c))) +
                [('returns the new value', lambda c: c.result == asof(c, leaf)[0](new(c)))])


clear = Spec(
    'ClearMatrix', unit=UNIT, requires=hf() + inv(), assigns=lambda c: touched(c),
    ghost=lambda c: m_(c).setpos(z3.K(Key, z3.IntVal(-1))),
    loops=[Loop([('cleared so far', lambda c: And(
        c.v('i') >= 0, m_(c).N == 0,
        qi(lambda b: (implies(And(0 <= b, b < c.v('i')), m_(c).hash(b) == -1), m_(c).hash(b)))))])],
    ensures=inv() + [('empty', lambda c: And(m_(c).N == 0, qk(lambda k: (m_(c).at(k) < 0, m_(c).at(k)))))])

remdef = Spec(
    'RemoveDefaultValues', unit=UNIT, timeout=20, requires=hf() + inv(), assigns=lambda c: touched(c),
    loops=[Loop(hf() + inv() + [
        ('index', lambda c: c.v('i') >= 0),
        ('no default before i', lambda c: qi(lambda j: (implies(
            And(0 <= j, j < c.v('i'), j < m_(c).N), m_(c).val(j) != m_(c).dflt), m_(c).val(j)))),
        ('values kept', lambda c: qk(lambda k: (m_(c).view(k) == m_(c.old).view(k), [m_(c).at(k), m_(c.old).at(k)])))])],
    ensures=inv() + [
        ('no default value left', lambda c: qi(lambda j: (implies(
            And(0 <= j, j < m_(c).N), m_(c).val(j) != m_(c).dflt), m_(c).val(j)))),
        ('values kept', lambda c: qk(lambda k: (m_(c).view(k) == m_(c.old).view(k), [m_(c).at(k), m_(c.old).at(k)])))])


def new_(c):
    return M(c, c.result)


def create_sizes(m):
    return And(m.N == 0, m.ds >= 0, m.hs >= 1, m.hs < 2 ** 31, m.cap('keys') == m.ks * m.ds,
               m.cap('data') == m.soe * m.ds, m.cap('next') >= 4 * m.ds, m.cap('prev') >= 4 * m.ds,
               m.cap('hash') >= 4 * m.hs)


create = Spec(
    'CreateMatrix', unit=UNIT, frame=False,
    requires=[('sizes', lambda c: And(c.a('keysize') >= 1, c.a('hashs') >= 0, c.a('soe') >= 1))],
    exits=lambda c: c.a('toe') != 0,
    ghost=lambda c: new_(c).setpos(z3.K(Key, z3.IntVal(-1))),
    loops=[Loop([('index', lambda c: And(c.v('i') >= -1, c.v('i') < 13)),
                 ('primes are positive', lambda c: primes(c))]),
           Loop([('cleared so far', lambda c: And(
               c.v('i') >= 0, qi(lambda b: (implies(And(0 <= b, b < c.v('i')), lv(c).hash(b) == -1),
                                            lv(c).hash(b)))))])],
    ensures=[('sizes and capacities', lambda c: create_sizes(new_(c))),
             ('key size and entry size as asked', lambda c: And(new_(c).ks == c.a('keysize'), new_(c).soe == c.a('soe'))),
             ('default value as asked', lambda c: new_(c).dflt == c.eng.memhook.get(c.old.st, c.a('def_value'), Val))] +
    [(n, (lambda f: lambda c: f(new_(c)))(f)) for n, f in INV[1:]])


def lv(c):
    """the store under construction"""
    return M(c, c.v('m'))


def primes(c):
    p = c.v('pr')
    return And([c.ld(p.newstep(4, z3.IntVal(i))) >= 1 for i in range(14)])



# ---------------------------------------------------------------- traversal
ST = Ptr('@sm_STm', (0, 'D', 0))


def stm(c):
    return M(c, ST)


def sti(c):
    return c.G('sm_STidx')


def mat_ptrs(name):
    def f(eng, args, names, st):
        i = names.index(name)
        args[i] = Ptr(args[i].region, args[i].path, args[i].idx, z3.Bool('null_' + name))
        return args
    return f


def isnull(c, name):
    return z3.Bool('null_' + name)


def key_at(c, p='key', sort=Key):
    return c.eng.memhook.get(c.st, c.a(p), sort)


step = Spec(
    'StepThrough', unit=UNIT, ptrs=mat_ptrs('mat'), modular=False,
    requires=[('cursor', lambda c: And(sti(c) >= -1, sti(c) < stm(c).N))] + hf(stm) + inv(stm),
    assigns=lambda c: [Ptr('@sm_STm'), Ptr('@sm_STidx'), c.a('key'), c.a('data')],
    ensures=[
        ('start: cursor before the first entry', lambda c: implies(Not(isnull(c, 'mat')), And(
            sti(c) == -1, c.eng.pcmp('eq', c.result, Ptr(None)),
            z3.BoolVal(isinstance(c.st.cells.get(('@sm_STm', (0,))), Ptr) and
                       c.st.cells[('@sm_STm', (0,))].region == 'mat') if stchanged(c) else z3.BoolVal(True)))),
        ('step: next entry', lambda c: implies(isnull(c, 'mat'), And(
            sti(c) == sti(c.old) + 1,
            c.eng.pcmp('eq', c.result, Ptr(None)) == (sti(c) >= stm(c.old).N),
            implies(sti(c) < stm(c.old).N, And(
                key_at(c) == stm(c.old).key(sti(c)), key_at(c, 'data', Val) == stm(c.old).val(sti(c)))))))])


def stchanged(c):
    return ('@sm_STm', (0,)) in c.st.cells


delcur = Spec(
    'DeleteCurrentST', unit=UNIT,
    requires=[('a current entry', lambda c: And(sti(c) >= 0, sti(c) < stm(c).N))] + hf(stm) + inv(stm),
    assigns=lambda c: touched(c, ST) + [Ptr('@sm_STidx')],
    ensures=rem_post(stm, lambda c: sti(c.old)) + [
        ('cursor moved back', lambda c: sti(c) == sti(c.old) - 1),
        ('the same entries remain to be visited', lambda c: (lambda m, o: qk(lambda k: (And(
            (m.at(k) > sti(c)) == (o.at(k) > sti(c.old)),
            implies(m.at(k) >= 0, m.val(m.at(k)) == o.val(o.at(k)))), [m.at(k), o.at(k)])))(stm(c), stm(c.old)))])

SPECS = [create, calc, new_entry, remove, find_entry, set_raw, get_raw, clear, remdef] + \
    [f(T, l) for f in (setter, getter) for T, l in (('I', I), ('F', R), ('D', R))] + [incr('I', I), incr('F', R)]

QM = Ptr('@qindcmp.m', (0, 'D', 0))


def elem(c, n):
    return c.ld(c.a(n))


def qm(c):
    return M(c, QM)


qindcmp = Spec(
    'qindcmp', unit=UNIT, modular=False, ptrs=mat_ptrs('a'),
    requires=[('elements', lambda c: implies(Not(isnull(c, 'a')), And(
        elem(c, 'a') >= 0, elem(c, 'a') < qm(c).N, elem(c, 'b') >= 0, elem(c, 'b') < qm(c).N)))] + inv(qm),
    assigns=lambda c: [Ptr('@qindcmp.m')],
    ensures=[
        ('sets the store', lambda c: implies(isnull(c, 'a'), ptrcell(c, '@qindcmp.m', 'b'))),
        ('orders by key', lambda c: implies(Not(isnull(c, 'a')), And(
            (c.result < 0) == qm(c.old).lt(qm(c.old).key(elem(c, 'a')), qm(c.old).key(elem(c, 'b'))),
            (c.result > 0) == qm(c.old).lt(qm(c.old).key(elem(c, 'b')), qm(c.old).key(elem(c, 'a'))))))])


def ptrcell(c, region, target):
    v = c.st.cells.get((region, (0,)))
    return z3.BoolVal(isinstance(v, Ptr) and v.region == target and v.path == (0,))


OS = '@OrderedStepThrough'


def osm(c):
    return M(c, Ptr(OS + '.sm', (0, 'D', 0)))


def sarr(c, i):
    return c.ld(c.eng.loadptr(c.st, Ptr(OS + '.sarray')).step(4, i))


def cnt(c):
    return c.G('OrderedStepThrough.count')


def sarr_ok(c, m):
    return qi(lambda i: (implies(And(0 <= i, i < m.N), And(sarr(c, i) >= 0, sarr(c, i) < m.N)), sarr(c, i)))


def nullm(c):
    return isnull(c, 'm')


def os_init(c):
    m = m_(c)
    Q = c.st.ghost.get('qsort_inv')
    return And(
        cnt(c) == 0, ptrcell(c, OS + '.sm', 'm'), sarr_ok(c, m),
        qi(lambda e: (implies(And(0 <= e, e < m.N), And(Q[e] >= 0, Q[e] < m.N, sarr(c, Q[e]) == e)), Q[e])),
        qi(lambda i, j: (implies(And(0 <= i, i < j, j < m.N), m.lt(m.key(sarr(c, i)), m.key(sarr(c, j)))),
                         [(sarr(c, i), sarr(c, j))]), 2))


ostep = Spec(
    'OrderedStepThrough', unit=UNIT, ptrs=mat_ptrs('m'), modular=False,
    requires=[
        ('running traversal', lambda c: And(
            cnt(c) >= 0, cnt(c) <= osm(c).N, sarr_ok(c, osm(c)),
            c.eng.memhook.cap(c.st, Ptr(OS + '.sarray', (0, 'D', 0))) >= 4 * osm(c).N))] + inv(osm, 'running: ') + inv(),
    assigns=lambda c: [Ptr(OS + '.sm'), Ptr(OS + '.sarray'), Ptr(OS + '.count'), Ptr('@qindcmp.m'),
                       c.a('key'), c.a('value')],
    loops=[Loop([('filled so far', lambda c: And(
        c.v('i') >= 0, c.v('i') <= m_(c).N,
        qi(lambda j: (implies(And(0 <= j, j < c.v('i')), sarr(c, j) == j), sarr(c, j)))))])],
    ensures=[
        ('start: every entry once, in increasing key order', lambda c: implies(
            Not(nullm(c)), os_init(c) if 'qsort_inv' in c.st.ghost else z3.BoolVal(False))),
        ('step: the next entry in order', lambda c: implies(And(nullm(c), cnt(c.old) < osm(c.old).N), And(
            cnt(c) == cnt(c.old) + 1,
            key_at(c) == osm(c.old).key(sarr(c.old, cnt(c.old))),
            key_at(c, 'value', Val) == osm(c.old).val(sarr(c.old, cnt(c.old)))) if
            c.result.region is not None else z3.BoolVal(False))),
        ('end after the last entry', lambda c: implies(And(nullm(c), cnt(c.old) >= osm(c.old).N),
            z3.BoolVal(c.result.region is None)))])

STEP = [step, delcur, qindcmp, ostep]
