"""The sparse count store as its C++ clients see it: a family of stores (the matrices a
std::vector<sikMatrix<K, V>*> points to), each with num_entries dense slots.

FindEntry / RemoveEntryIdx / GetRawValue / SetRawValue are used by the contracts that C01
proves on sparse_matrix.c: slot s < num_entries holds the entry of key KEYS(s); FindEntry
returns the slot of the key or appends one with the default value; RemoveEntryIdx moves the
last entry into the slot."""
import re
import z3
from sym import Ptr, I, R, nsel, nstore, nested_sort, Opaque
from ir import Unsupported
import spec

Key = I
KEYOF = z3.Function('key_of', z3.ArraySort(I, I), I, I, I)     # contents of n elements from a base


def ret(st, v=None):
    return [('ret', st, v)]


class Store:
    """base: Ptr to the struct matrix (region, path; idx = position in the family)"""

    def __init__(self, eng, base, vdi, kdim=None):
        m = eng.mod
        self.eng, self.base = eng, base
        mm = m.di_members(m.find_di_type('matrix'))
        self.o_n, self.o_data, self.o_keys = mm['num_entries'][0], mm['data'][0], mm['keys'][0]
        self.o_size, self.o_key, self.o_def = mm['size_of_entry'][0], mm['key_size'][0], mm['default_value'][0]
        v = m.di_strip(vdi)
        self.es = spec.esize(m, v)
        self.fields = {}         # name -> (suffix of the path below the slot, sort)
        lt = spec.leaf_ty(m, v)
        if lt:
            self.fields[''] = ((0,), eng.leafsort(lt))
        else:
            for nm, (o, t) in m.di_members(v).items():
                lt = spec.leaf_ty(m, t)
                if lt:
                    self.fields[nm] = ((o,), eng.leafsort(lt))
                else:
                    bt = m.mdget(m.di_strip(t), 'baseType')
                    self.fields[nm] = ((o, ('s', spec.esize(m, bt)), 0), eng.leafsort(spec.leaf_ty(m, bt)))
        self.data = base.off(self.o_data).deref()
        self.keys = base.off(self.o_keys).deref()
        eng.__dict__.setdefault('slots', {})[(self.data.region, self.data.path)] = self.es
        eng.__dict__.setdefault('constcells', {})[(base.region, base.off(self.o_size).path)] = z3.IntVal(self.es)
        eng.__dict__.setdefault('stores', {})[(base.region, base.path)] = self
        eng.__dict__.setdefault('storekeys', {})[(self.keys.region, self.keys.path + (('s', 1), 0))] = self
        eng.__dict__.setdefault('storedef', {})[(base.off(self.o_def).deref().region, base.off(self.o_def).deref().path)] = self

    # ---- cells
    def cn(self):
        return (self.base.region, self.base.off(self.o_n).path)

    def ck(self):
        return (self.base.region, self.keys.path + ('KEYS', ('s', 1), 0))

    def cf(self, nm):
        suf, s = self.fields[nm]
        return (self.data.region, self.data.path + (('s', self.es),) + suf), s

    def cs(self):
        return (self.base.region, self.keys.path + ('SLOT', ('s', 1), 0))

    def keysize(self, st, idx):
        p = self.base.off(self.o_key)
        return nsel(self.eng.cell(st, p.region, p.path, I), idx)

    def default(self, st, idx, nm=''):
        suf, s = self.fields[nm]
        d = self.base.off(self.o_def).deref()
        return nsel(self.eng.cell(st, d.region, d.path[:-1] + (d.path[-1] + suf[0],) + suf[1:], s), idx)

    def slot(self, st, idx, k):
        """slot of a key, negative when absent (a function of the keys: no key is stored twice)"""
        r, p = self.cs()
        return nsel(self.eng.cell(st, r, p, I), tuple(idx) + (k,))

    def setslot(self, st, idx, k, v):
        self.setcell(st, self.cs(), I, tuple(idx) + (k,), v)

    def wf(self, st, idx):
        """SLOT is the inverse of KEYS (the map contract of C01)"""
        s, k = z3.Int('s?wf'), z3.Int('k?wf')
        return z3.And(self.n(st, idx) >= 0, self.n(st, idx) < 2 ** 31 - 2,
                      z3.ForAll([s], z3.Implies(z3.And(0 <= s, s < self.n(st, idx)), self.slot(st, idx, self.key(st, idx, s)) == s),
                                patterns=[self.key(st, idx, s)]),
                      z3.ForAll([k], z3.Implies(self.slot(st, idx, k) >= 0, z3.And(
                          self.slot(st, idx, k) < self.n(st, idx), self.key(st, idx, self.slot(st, idx, k)) == k)),
                                patterns=[self.slot(st, idx, k)]))

    def append(self, st, idx, k, get):
        n = self.n(st, idx)
        st.assume(z3.And(n >= 0, n < 2 ** 31 - 3))
        self.setkey(st, idx, n, k)
        self.setslot(st, idx, k, n)
        for nm in self.fields:
            self.setval(st, idx, n, nm, get(nm))
        self.setn(st, idx, n + 1)
        return n

    def remove(self, st, idx, i):
        n = self.n(st, idx)
        ki, kl = self.key(st, idx, i), self.key(st, idx, n - 1)
        st.assume(z3.And(self.slot(st, idx, ki) == i, self.slot(st, idx, kl) == n - 1))
        self.setslot(st, idx, kl, i)
        self.setslot(st, idx, ki, z3.IntVal(-1))
        self.setkey(st, idx, i, kl)
        for nm in self.fields:
            self.setval(st, idx, i, nm, self.val(st, idx, n - 1, nm))
        self.setn(st, idx, n - 1)

    def n(self, st, idx):
        r, p = self.cn()
        return nsel(self.eng.cell(st, r, p, I), idx)

    def key(self, st, idx, slot):
        r, p = self.ck()
        return nsel(self.eng.cell(st, r, p, I), tuple(idx) + (slot,))

    def val(self, st, idx, slot, nm=''):
        (r, p), s = self.cf(nm)
        return nsel(self.eng.cell(st, r, p, s), tuple(idx) + (slot,))

    def setcell(self, st, k, s, idx, v):
        self.eng.note_write(k)
        st.cells[k] = nstore(self.eng.cell(st, k[0], k[1], s), idx, v)

    def setn(self, st, idx, v):
        self.setcell(st, self.cn(), I, idx, v)

    def setkey(self, st, idx, slot, v):
        self.setcell(st, self.ck(), I, tuple(idx) + (slot,), v)

    def setval(self, st, idx, slot, nm, v):
        k, s = self.cf(nm)
        self.setcell(st, k, s, tuple(idx) + (slot,), v)

    defv = None              # default value, 0 unless stated

    def zero(self, nm):
        if self.defv is not None:
            return self.defv
        suf, s = self.fields[nm]
        z = z3.IntVal(0) if s == I else z3.RealVal(0)
        for e in suf:
            if isinstance(e, tuple):
                z = z3.K(I, z)
        return z

    def assigns(self):
        return [Ptr(*self.cn()), Ptr(*self.ck()), Ptr(*self.cs()), Ptr(self.data.region, self.data.path)]


def keyterm(eng, st, p, store, mp):
    """the key in memory at p (key_size bytes)"""
    if not isinstance(p, Ptr):
        raise Unsupported('key pointer')
    return keyof(eng, st, p, eng.load(st, mp.off(store.o_key), ('i', 64)))


def keyof(eng, st, p, n):
    """the key of n bytes in memory at p"""
    S = getattr(eng, 'storekeys', {}).get((p.region, p.path))
    if S is not None:               # the key bytes of a slot of a store
        b = z3.simplify(p.idx[-1])
        n = z3.simplify(n)
        f = [x for x in b.children() if not x.eq(n)] if z3.is_mul(b) else []
        s = f[0] if len(f) == 1 and len(b.children()) == 2 else z3.IntVal(0) if z3.is_int_value(b) and b.as_long() == 0 else b / n
        return S.key(st, p.idx[:-1], s)
    if p.idx and p.path[-1] == 0 and isinstance(p.path[-2], tuple):
        a = nsel(eng.cell(st, p.region, p.path, I), p.idx[:-1])
        return KEYOF(a, p.idx[-1], n)
    q = p.newstep(4, z3.IntVal(0))
    return KEYOF(nsel(eng.cell(st, q.region, q.path, I), q.idx[:-1]), z3.IntVal(0), n)


def of(eng, m):
    s = getattr(eng, 'stores', {}).get((m.region, m.path)) if isinstance(m, Ptr) else None
    if s is None:
        raise Unsupported('unknown store')
    return s


def absent(S, st, idx, k):
    j = z3.Int('j?slot')
    f = z3.Implies(z3.And(0 <= j, j < S.n(st, idx)), S.key(st, idx, j) != k)
    if any(cond(i) for i in idx):        # no pattern with a conditional
        return z3.ForAll([j], f)
    return z3.ForAll([j], f, patterns=[S.key(st, idx, j)])


def cond(e):
    return z3.is_bool(e) or any(cond(x) for x in e.children())


def slot_of(eng, S, st, idx, k):
    """two outcomes: present in slot r, or absent"""
    r = S.slot(st, idx, k)
    a = st.copy()
    a.assume(z3.And(0 <= r, r < S.n(st, idx), S.key(st, idx, r) == k))
    b = st.copy()
    b.assume(z3.And(r < 0, absent(S, st, idx, k)))
    return r, a, b


def find_entry(eng, st, args, info):
    S, m = of(eng, args[0]), args[0]
    eng.assumed.add('FindEntry (contract proved by C01)')
    k = keyterm(eng, st, args[1], S, m)
    r, a, b = slot_of(eng, S, st, m.idx, k)
    if not z3.is_int_value(args[2]):
        raise Unsupported('FindEntry')
    if args[2].as_long() == 0:
        return [('ret', a, r), ('ret', b, z3.IntVal(-1))]
    n = S.append(b, m.idx, k, S.zero)
    return [('ret', a, r), ('ret', b, n)]


def remove_entry(eng, st, args, info):
    S, m = of(eng, args[0]), args[0]
    eng.assumed.add('RemoveEntryIdx (contract proved by C01)')
    st = st.copy()
    n, i = S.n(st, m.idx), args[1]
    eng.oblige(st, 'call-pre', 'RemoveEntryIdx of an existing entry (line %s)' % eng.line(info['ins']), z3.And(0 <= i, i < n))
    S.remove(st, m.idx, i)
    return ret(st)


def vstore(eng, st, S, p, get):
    """write a whole value through p"""
    for nm, (suf, s) in S.fields.items():
        path = p.path[:-1] + (p.path[-1] + suf[0],) + suf[1:]
        k = (p.region, path)
        eng.note_write(k)
        srt = s
        for e in suf:
            if isinstance(e, tuple):
                srt = z3.ArraySort(I, srt)
        st.cells[k] = nstore(eng.cell(st, p.region, path, s), p.idx, get(nm))


def vload(eng, st, S, p, nm):
    suf, s = S.fields[nm]
    return nsel(eng.cell(st, p.region, p.path[:-1] + (p.path[-1] + suf[0],) + suf[1:], s), p.idx)


def get_raw(eng, st, args, info):
    S, m = of(eng, args[0]), args[0]
    eng.assumed.add('GetRawValue (contract proved by C01)')
    k = keyterm(eng, st, args[1], S, m)
    r, a, b = slot_of(eng, S, st, m.idx, k)
    vstore(eng, a, S, args[2], lambda nm: S.val(a, m.idx, r, nm))
    vstore(eng, b, S, args[2], lambda nm: S.zero(nm))
    return ret(a) + ret(b)


def eqdef(S, f):
    return z3.And([f(nm) == S.zero(nm) for nm in S.fields])


def set_raw(eng, st, args, info):
    """set: found/absent times default/other"""
    S, m = of(eng, args[0]), args[0]
    eng.assumed.add('SetRawValue (contract proved by C01)')
    k = keyterm(eng, st, args[1], S, m)
    v = {nm: vload(eng, st, S, args[2], nm) for nm in S.fields}
    d = z3.And([v[nm] == S.zero(nm) for nm in S.fields])
    r, a, b = slot_of(eng, S, st, m.idx, k)
    a1, a2, b1, b2 = a.copy(), a.copy(), b.copy(), b.copy()
    a1.assume(z3.Not(d))
    a2.assume(d)
    b1.assume(z3.Not(d))
    b2.assume(d)
    for nm in S.fields:
        S.setval(a1, m.idx, r, nm, v[nm])
    S.remove(a2, m.idx, r)
    S.append(b1, m.idx, k, lambda nm: v[nm])
    return [o for s in (a1, a2, b1, b2) if eng.quick(s.pc) for o in ret(s)]


def cmp_default(eng, st, args, info):
    """memcmp of a slot with the default value"""
    a, b, n = args
    if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
        raise Unsupported('memcmp')
    S = getattr(eng, 'storedef', {}).get((b.region, b.path))
    if S is None or not (z3.is_int_value(n) and n.as_long() == S.es):
        return None
    r = eng.fresh('memcmp')
    st = st.copy()
    st.assume((r == 0) == z3.And([vload(eng, st, S, a, nm) == S.zero(nm) for nm in S.fields]))
    return ret(st, r)


RULES = [(r'FindEntry$', find_entry), (r'RemoveEntryIdx$', remove_entry), (r'GetRawValue$', get_raw),
         (r'SetRawValue$', set_raw), (r'memcmp$', cmp_default)]


def install(eng):
    if not any(h is find_entry for _, h in eng.stl.rules):
        eng.stl.rules[:0] = RULES


def family(eng, this, tname, member):
    """the stores of a member std::vector<sikMatrix<K, V>*> of *this"""
    m = eng.mod
    off, t = m.di_members(m.find_di_type(tname))[member]
    vec = this.off(off)
    pt = m.di_strip(m.di_targs(m.di_strip(t))[0])
    sik = m.di_strip(m.mdget(pt, 'baseType'))
    v = m.di_targs(sik)[1]
    e = spec.velem(vec, 8, z3.IntVal(0))
    sm = Ptr(e.region, e.path + ('D', 0), ())
    mat = Ptr(sm.region, sm.off(m.di_members(sik)['m'][0]).path + ('D', 0), ())
    install(eng)
    S = Store(eng, mat, v)
    S.elem = e
    return S, vec


# ---- creating the stores of a family
def null(eng, st, S, idx):
    """the position of the vector holds no store"""
    return nullv(eng, st, S, idx) == 1


def nullv(eng, st, S, idx):
    return nsel(eng.cell(st, S.elem.region, S.elem.path + ('null',), I), idx)


def nullables(eng, S):
    eng.ptrinfo[(S.elem.region, S.elem.path)] = {'nullable': True}


def resize_null(eng, st, args, info):
    """vector<sikMatrix*>::resize(n, NULL): the old positions keep their stores, the new ones hold none"""
    S = next((x for x in eng.stores.values() if hasattr(x, 'elem') and x.elem.region == args[0].region
              and x.elem.path[:len(args[0].path)] == args[0].path), None)
    if S is None or len(args) < 3:
        raise Unsupported('resize of a vector of stores')
    v = eng.load(st, args[2], ('ptr',))
    if not (isinstance(v, Ptr) and v.region is None):
        raise Unsupported('resize of a vector of stores with a store')
    import stl
    st = st.copy()
    n = stl.get_size(eng, st, args[0])
    k = (S.elem.region, S.elem.path + ('null',))
    a = eng.cell(st, k[0], k[1], I)
    b = eng.fresh('null', a.sort())
    j = z3.Int('j?null')
    st.assume(z3.ForAll([j], z3.Select(b, j) == z3.If(j < n, z3.Select(a, j), 1), patterns=[z3.Select(b, j)]))
    eng.note_write(k)
    st.cells[k] = b
    stl.set_size(eng, st, args[0], args[1])
    st.assume(z3.And(args[1] >= 0, args[1] <= stl.MAXSZ))
    return ret(st)


def new_matrix(eng, st, args, info):
    """sikMatrix(dims, hash size, default value): the empty store of CreateMatrix (contract proved by C01)"""
    eng.assumed.add('CreateMatrix (contract proved by C01; the hash size it is given is not negative)')
    eng.oblige(st, 'call-pre', 'a store has keys of at least one word (line %s)' % eng.line(info['ins']), args[1] >= 1)
    eng.__dict__.setdefault('freshmat', {})[args[0].region] = (args[1], args[3], st.copy())
    return ret(st)


def place_matrix(eng, st, p, v):
    """a new store becomes the store at a position of the family"""
    S = next((x for x in eng.stores.values() if hasattr(x, 'elem') and (x.elem.region, x.elem.path) == (p.region, p.path)), None)
    f = getattr(eng, 'freshmat', {}).get(v.region) if isinstance(v, Ptr) else None
    if S is None or f is None:
        return False
    dims, d, at = f
    S.setn(st, p.idx, z3.IntVal(0))
    b = S.base.off(S.o_key)
    S.setcell(st, (b.region, b.path), I, p.idx, 4 * dims)
    S.setcell(st, S.cs(), I, p.idx, z3.K(I, z3.IntVal(-1)))
    S.setcell(st, (S.elem.region, S.elem.path + ('null',)), I, p.idx, z3.IntVal(0))
    q = S.base.off(S.o_def).deref()
    for suf, s in S.fields.values():
        k = (q.region, q.path[:-1] + (q.path[-1] + suf[0],) + suf[1:])
        if isinstance(d, Ptr):
            src = d.off(suf[0])
            val = nsel(eng.cell(at, src.region, src.path + suf[1:], s), src.idx)
            if len(suf) > 1:         # an array member of three numbers (bo_3c::nzer)
                row = z3.K(I, z3.IntVal(0))
                for j in range(3):
                    row = z3.Store(row, j, z3.Select(val, j))
                val = row
        else:
            val = d
        S.setcell(st, k, s, p.idx, val)
    return True


def extremum(eng, st, args, info):
    """std::max / std::min of two ints, as a value (the result is only read)"""
    a, b = (eng.load(st, x, ('i', 32)) for x in args[:2])
    st = st.copy()
    p = Ptr('#extremum%d' % next(eng.fresh_n), (0,))
    st.cells[(p.region, p.path)] = z3.If(a < b, b, a) if 'max<' in info['dem'] else z3.If(b < a, b, a)
    return ret(st, p)


CREATE = [(r'(?:int const& )?std::(?:max|min)<int>\(int const&, int const&\)', extremum),
          (r'std::vector<sikMatrix<.*>::resize\(unsigned long, ', resize_null),
          (r'sikMatrix<.*>::sikMatrix\(int, int, ', new_matrix)]


def creating(eng):
    eng.stl.rules[:0] = CREATE
    eng.ptrstores = [place_matrix]


def single(eng, this, tname, member):
    """the store of a member sikMatrix<K, V>* of *this"""
    m = eng.mod
    off, t = m.di_members(m.find_di_type(tname))[member]
    sik = m.di_strip(m.mdget(m.di_strip(t), 'baseType'))
    v = m.di_targs(sik)[1]
    sm = this.off(off).deref()
    mat = sm.off(m.di_members(sik)['m'][0]).deref()
    install(eng)
    return Store(eng, mat, v)


def wf1(S, st):
    """one store as a map (C01)"""
    s, k = z3.Int('s?wf'), z3.Int('k?wf')
    i = S.base.idx
    return z3.And(S.wf(st, i), *[S.default(st, i, f) == S.zero(f) for f in S.fields])


def value(S, st, k, nm=''):
    i = S.base.idx
    return z3.If(S.slot(st, i, k) >= 0, S.val(st, i, S.slot(st, i, k), nm), S.zero(nm))


# ---- stepping through a store
STEP = '@sm_ST'
PRE = z3.Function('prefix_of', I, I, I)       # key, number of words -> key of all words but the last
SUF = z3.Function('suffix_of', I, I, I)       # key, number of words -> key of all words but the first
WORD = z3.Function('word_of', I, I, I)        # key, position -> word


def stepidx(eng, st):
    return eng.cell(st, STEP, ('idx',), I)


def setstep(eng, st, v):
    eng.note_write((STEP, ('idx',)))
    st.cells[(STEP, ('idx',))] = v


def step_through(eng, st, args, info):
    """StepThrough(m, ..) starts; StepThrough(NULL, key, data) copies the next entry or returns NULL"""
    eng.assumed.add('StepThrough')
    m = args[0]
    if isinstance(m, Ptr) and m.region is not None:
        S = of(eng, m)
        st = st.copy()
        eng.note_write((STEP, ('m',)))
        st.cells[(STEP, ('m',))] = m
        setstep(eng, st, z3.IntVal(-1))
        for f in getattr(eng, 'onstep', []):
            f(eng, st, S, m.idx, None)
        return ret(st, Ptr(None))
    m = st.cells.get((STEP, ('m',)))
    if not isinstance(m, Ptr):
        raise Unsupported('StepThrough without a matrix')
    S = of(eng, m)
    key, data = args[1], args[2]
    a, b = st.copy(), st.copy()
    j = stepidx(eng, st) + 1
    n = S.n(st, m.idx)
    for s in (a, b):
        setstep(eng, s, j)
    a.assume(j >= n)
    b.assume(z3.And(0 <= j, j < n))
    out = []
    if eng.quick(a.pc):
        out += ret(a, Ptr(None))
    if eng.quick(b.pc):
        copy_key(eng, b, key, S.keysize(b, m.idx), S.key(b, m.idx, j))
        vstore_any(eng, b, S, data, m.idx, j)
        for f in getattr(eng, 'onstep', []):
            f(eng, b, S, m.idx, j)
        out += ret(b, Ptr(S.data.region, S.data.path + (('s', S.es), 0), tuple(m.idx) + (j,)))
    return out


def copy_key(eng, st, p, nbytes, k):
    """the words of key k, nbytes long, are now at p"""
    if not (p.idx and p.path[-1] == 0 and isinstance(p.path[-2], tuple)):
        p = p.newstep(4, z3.IntVal(0))
    ck = (p.region, p.path)
    old = nsel(eng.cell(st, p.region, p.path, I), p.idx[:-1])
    base = p.idx[-1]
    eng.note_write(ck)
    new = eng.fresh('keycopy', z3.ArraySort(I, I))
    st.cells[ck] = nstore(eng.cell(st, p.region, p.path, I), p.idx[:-1], new) if p.idx[:-1] else new
    o = nbytes / 4
    i = z3.Int('i?cp')
    st.assume(z3.And(
        KEYOF(new, base, nbytes) == k, KEYOF(new, base, nbytes - 4) == PRE(k, o), KEYOF(new, base + 1, nbytes - 4) == SUF(k, o),
        z3.ForAll([i], z3.Implies(z3.Or(i < base, i >= base + o), z3.Select(new, i) == z3.Select(old, i)), patterns=[z3.Select(new, i)]),
        z3.ForAll([i], z3.Implies(z3.And(base <= i, i < base + o), z3.Select(new, i) == WORD(k, i - base)), patterns=[z3.Select(new, i)])))


def vstore_any(eng, st, S, p, idx, j):
    """copy the value of slot j to p (a local of the value type)"""
    for nm, (suf, s) in S.fields.items():
        q = p
        if suf[0]:
            q = q.off(suf[0])
        path = q.path
        k = (q.region, path + tuple(suf[1:])) if len(suf) > 1 else (q.region, path)
        eng.note_write(k)
        srt = s
        for e in suf:
            if isinstance(e, tuple):
                srt = z3.ArraySort(I, srt)
        st.cells[k] = nstore(eng.cell(st, k[0], k[1], s), p.idx, S.val(st, idx, j, nm))


def delete_st(eng, st, args, info):
    m = st.cells.get((STEP, ('m',)))
    S = of(eng, m)
    st = st.copy()
    j = stepidx(eng, st)
    eng.oblige(st, 'call-pre', 'DeleteCurrentST on an entry (line %s)' % eng.line(info['ins']), z3.And(0 <= j, j < S.n(st, m.idx)))
    S.remove(st, m.idx, j)
    setstep(eng, st, j - 1)
    return ret(st)


def ordered_step(eng, st, args, info):
    """OrderedStepThrough(m, ..) starts; (NULL, key, data) copies the next entry in key order: slot ORD(i) for the
    i-th step, ORD a permutation of the slots (contract proved by C02)"""
    eng.assumed.add('OrderedStepThrough (contract proved by C02)')
    m = args[0]
    OC = (STEP + 'o', ('ord',))
    if isinstance(m, Ptr) and m.region is not None:
        S = of(eng, m)
        st = st.copy()
        eng.note_write((STEP + 'o', ('m',)))
        eng.note_write((STEP + 'o', ('idx',)))
        eng.note_write(OC)
        st.cells[(STEP + 'o', ('m',))] = m
        st.cells[(STEP + 'o', ('idx',))] = z3.IntVal(-1)
        o, v = eng.fresh('ord', z3.ArraySort(I, I)), eng.fresh('pos', z3.ArraySort(I, I))
        st.cells[OC] = o
        i = z3.Int('i?o')
        n = S.n(st, m.idx)
        st.assume(z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= o[i], o[i] < n, v[o[i]] == i)), patterns=[o[i]]),
                         z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= v[i], v[i] < n, o[v[i]] == i)), patterns=[v[i]])))
        return ret(st, Ptr(None))
    m = st.cells.get((STEP + 'o', ('m',)))
    if not isinstance(m, Ptr):
        raise Unsupported('OrderedStepThrough without a matrix')
    S = of(eng, m)
    a, b = st.copy(), st.copy()
    j = eng.cell(st, STEP + 'o', ('idx',), I) + 1
    n = S.n(st, m.idx)
    eng.note_write((STEP + 'o', ('idx',)))
    for s in (a, b):
        s.cells[(STEP + 'o', ('idx',))] = j
    a.assume(j >= n)
    b.assume(z3.And(0 <= j, j < n))
    out = []
    if eng.quick(a.pc):
        out += ret(a, Ptr(None))
    if eng.quick(b.pc):
        sl = z3.Select(eng.cell(b, OC[0], OC[1], z3.ArraySort(I, I)), j)
        copy_key(eng, b, args[1], S.keysize(b, m.idx), S.key(b, m.idx, sl))
        vstore_any(eng, b, S, args[2], m.idx, sl)
        out += ret(b, Ptr(S.data.region, S.data.path + (('s', S.es), 0), tuple(m.idx) + (sl,)))
    return out


def orderedframe():
    return [Ptr(STEP + 'o', ('idx',)), Ptr(STEP + 'o', ('m',)), Ptr(STEP + 'o', ('ord',))]


RULES += [(r'OrderedStepThrough$', ordered_step), (r'(^|[^a-z])StepThrough$', step_through), (r'DeleteCurrentST$', delete_st)]


def stepframe():
    return [Ptr(STEP, ('idx',)), Ptr(STEP, ('m',))]


def pointed(eng, p, tname):
    """the store of the sikMatrix at p"""
    m = eng.mod
    sik = m.find_di_type(tname)
    v = m.di_targs(sik)[1]
    key = ('pstore', p.region, p.path)
    d = eng.__dict__.setdefault('pointed', {})
    if key not in d:
        d[key] = Store(eng, p.off(m.di_members(sik)['m'][0]).deref(), v)
    install(eng)
    return d[key]
