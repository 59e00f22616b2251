"""Raw C memory: malloc'ed arrays with capacities, and byte tables whose slots
(element size known only at run time) hold values of opaque sorts.

 * a byte range of `key_size` bytes is one value of sort Key, one of
   `size_of_entry` bytes one value of sort Val (memcpy / memcmp of exactly that
   size; memcmp is a total order on the contents);
 * scalar access to such a value goes through the bijections as_/of_;
 * every access to a registered array or table raises a bounds obligation
   against the capacity given to malloc / realloc.
"""
import z3
from sym import Ptr, FnPtr, Opaque, PtrInt, I, R, nsel, nstore
from ir import Unsupported


def same(a, b):
    return z3.simplify(a).eq(z3.simplify(b))


class CMem:
    def __init__(self, eng):
        self.eng = eng
        self.tables = {}     # (region, path) -> (slot size expr, sort)
        self.blobs = {}      # (region, path) -> sort
        self.sizes = []      # (expr, sort)
        self.caps = {}       # (region, path) -> 'slots' | 'bytes'
        self.default = None  # sort of byte ranges of unknown size
        self.bij = set()
        self.order = set()

    # -------------------------------------------------- registration
    def table(self, base, ks, sort):
        self.tables[(base.region, base.path)] = (ks, sort)
        self.caps[(base.region, base.path)] = 'slots'

    def array(self, base):
        self.caps[(base.region, base.path)] = 'bytes'

    def capcell(self, region, path):
        return (region, path + ('CAP',))

    def cap(self, st, base):
        k = self.capcell(base.region, base.path)
        v = st.cells.get(k)
        return v if v is not None else self.eng.initcell(st, k[0], k[1], I)

    # -------------------------------------------------- conversions
    def conv(self, sort, leaf):
        nm = '%s_%s' % (sort.name(), leaf.name())
        f = self.eng.ufn('as_' + nm, sort, leaf)
        g = self.eng.ufn('of_' + nm, leaf, sort)
        if nm not in self.bij:
            self.bij.add(nm)
            x, v = z3.Const('x?' + nm, leaf), z3.Const('v?' + nm, sort)
            self.eng.axioms.append(z3.ForAll([x], f(g(x)) == x, patterns=[g(x)]))
            self.eng.axioms.append(z3.ForAll([v], g(f(v)) == v, patterns=[f(v)]))
        return f, g

    def lt(self, sort):
        f = self.eng.ufn('lt_%s' % sort.name(), sort, sort, z3.BoolSort())
        if sort.name() not in self.order:
            self.order.add(sort.name())
            a, b, c = [z3.Const('%s?%s' % (n, sort.name()), sort) for n in 'abc']
            A = self.eng.axioms
            A.append(z3.ForAll([a, b], z3.Not(z3.And(f(a, b), f(b, a))), patterns=[f(a, b)]))
            A.append(z3.ForAll([a, b], z3.Or(f(a, b), f(b, a), a == b), patterns=[f(a, b)]))
            A.append(z3.ForAll([a], z3.Not(f(a, a)), patterns=[f(a, a)]))
            A.append(z3.ForAll([a, b, c], z3.Implies(z3.And(f(a, b), f(b, c)), f(a, c)),
                               patterns=[z3.MultiPattern(f(a, b), f(b, c))]))
        return f

    # -------------------------------------------------- slots
    def slot(self, p):
        """(table base path, slot index, size, sort) of a pointer to a slot"""
        if len(p.path) >= 3 and p.path[-2:] == (('s', 1), 0):
            t = self.tables.get((p.region, p.path[:-2]))
            if t:
                ks, sort = t
                e = z3.simplify(p.idx[-1])
                if z3.is_int_value(e) and e.as_long() == 0:
                    return p.path[:-2], z3.IntVal(0), ks, sort
                i = factor(p.idx[-1], ks)
                if i is None:
                    raise Unsupported('slot expression %s' % e)
                return p.path[:-2], i, ks, sort
        t = self.tables.get((p.region, p.path))
        if t:
            return p.path, z3.IntVal(0), t[0], t[1]
        return None

    def slots(self, st, region, path, sort):
        k = (region, path + ('K', ('k', 0), 0))
        a = st.cells.get(k)
        return k, (a if a is not None else self.eng.initcell(st, k[0], k[1], sort))

    def blob(self, st, p, sort):
        k = (p.region, p.path + ('B:' + sort.name(), 0))
        a = st.cells.get(k)
        return k, (a if a is not None else self.eng.initcell(st, k[0], k[1], sort))

    def get(self, st, p, sort):
        s = self.slot(p)
        if s:
            k, a = self.slots(st, p.region, s[0], s[3])
            return z3.Select(a, s[1])
        lt = self.localscalar(p)
        if lt is not None:
            v = self.eng.load(st, p, lt)
            return self.conv(sort, self.eng.leafsort(lt))[1](v)
        return nsel(self.blob(st, p, sort)[1], p.idx)

    def set(self, st, p, sort, v):
        s = self.slot(p)
        if s:
            k, a = self.slots(st, p.region, s[0], s[3])
            self.eng.note_write(k)
            st.cells[k] = z3.Store(a, s[1], v)
            return
        lt = self.localscalar(p)
        if lt is not None:
            f = self.conv(sort, self.eng.leafsort(lt))[0]
            self.eng.store(st, p, f(v), lt)
            return
        k, a = self.blob(st, p, sort)
        self.eng.note_write(k)
        st.cells[k] = nstore(a, p.idx, v)

    def localscalar(self, p):
        t = self.eng.alloca_t.get(p.region)
        if t is not None and p.path == (0,) and t[0] in ('i', 'float', 'double'):
            return t
        return None

    # -------------------------------------------------- hooks of the engine
    def load(self, eng, st, p, ty):
        if ty[0] not in ('i', 'float', 'double') or p.region.startswith('%'):
            return None
        s = self.slot(p)
        if s:
            k, a = self.slots(st, p.region, s[0], s[3])
            return self.conv(s[3], eng.leafsort(ty))[0](z3.Select(a, s[1]))
        b = self.blobs.get((p.region, p.path))
        if b is not None:
            return self.conv(b, eng.leafsort(ty))[0](nsel(self.blob(st, p, b)[1], p.idx))
        return None

    def store(self, eng, st, p, v, ty):
        if p.region.startswith('%') or not isinstance(v, z3.ExprRef):
            return False
        s = self.slot(p)
        if s:
            k, a = self.slots(st, p.region, s[0], s[3])
            eng.note_write(k)
            st.cells[k] = z3.Store(a, s[1], self.conv(s[3], v.sort())[1](v))
            return True
        return False

    def check(self, st, p, ins=None):
        """bounds obligation of an access"""
        if not isinstance(p, Ptr) or p.region is None:
            return
        s = self.slot(p)
        ln = self.eng.line(ins) if ins is not None else '?'
        if s:
            base = Ptr(p.region, s[0])
            self.eng.oblige(st, 'bounds', 'access inside the table (line %s)' % ln,
                            z3.And(s[1] >= 0, s[1] < self.cap(st, base)))
            return
        if len(p.path) >= 3 and isinstance(p.path[-2], tuple) and \
                self.caps.get((p.region, p.path[:-2])) == 'bytes':
            w = p.path[-2][1]
            i = p.idx[-1]
            self.eng.oblige(st, 'bounds', 'access inside the array (line %s)' % ln,
                            z3.And(i >= 0, w * i + w <= self.cap(st, Ptr(p.region, p.path[:-2]))))
        elif self.caps.get((p.region, p.path)) == 'bytes':
            pass

    def sortof(self, n, *ptrs):
        for p in ptrs:
            s = self.slot(p)
            if s:
                return s[3], s[2]
        for e, so in self.sizes:
            if same(e, n):
                return so, e
        for p in ptrs:
            b = self.blobs.get((p.region, p.path))
            if b is not None:
                return b, None
        if self.default is not None and not any(q.region.startswith('@__const') for q in ptrs):
            return self.default, None
        return None, None

    def memcpy(self, eng, st, args, info):
        dst, src, n = args[:3]
        sort, ks = self.sortof(n, dst, src)
        if sort is None:
            return None
        eng.assumed.add('memcpy')
        st = st.copy()
        if ks is not None and not same(n, ks):
            eng.oblige(st, 'safety', 'copies exactly one element (line %s)' % eng.line(info['ins']), n == ks)
        for p in (dst, src):
            self.check(st, p, info['ins'])
        self.set(st, dst, sort, self.get(st, src, sort))
        return [('ret', st, dst)]

    def memcmp(self, eng, st, args, info):
        a, b, n = args[:3]
        sort, ks = self.sortof(n, a, b)
        if sort is None:
            return None
        eng.assumed.add('memcmp')
        if ks is not None and not same(n, ks):
            eng.oblige(st, 'safety', 'compares exactly one element (line %s)' % eng.line(info['ins']), n == ks)
        for p in (a, b):
            self.check(st, p, info['ins'])
        va, vb = self.get(st, a, sort), self.get(st, b, sort)
        lt = self.lt(sort)
        r = eng.fresh('cmp')
        st = st.copy()
        st.assume(z3.And((r < 0) == lt(va, vb), (r > 0) == lt(vb, va), (r == 0) == (va == vb),
                         r >= -2 ** 31, r < 2 ** 31))
        return [('ret', st, r)]

    def malloc(self, eng, st, args, info):
        eng.assumed.add('malloc')
        p = Ptr('#m%d' % next(eng.fresh_n))
        self.array(p)
        st = st.copy()
        k = self.capcell(p.region, p.path)
        eng.note_write(k)
        st.cells[k] = args[0]
        return [('ret', st, p)]

    def realloc(self, eng, st, args, info):
        p, n = args
        eng.assumed.add('realloc')
        kind = self.caps.get((p.region, p.path))
        if kind is None:
            raise Unsupported('realloc of an unregistered array')
        st = st.copy()
        old = self.cap(st, p)
        if kind == 'slots':
            ks, sort = self.tables[(p.region, p.path)]
            new = factor(n, ks)
            if new is None:
                raise Unsupported('realloc size')
            lo = (old, new)
            keys = [self.slots(st, p.region, p.path, sort)]
        else:
            new = n
            keys = []
            for (r, path) in list({(k[0], k[1]) for k in st.cells} | {(k[0], k[1]) for k in eng.init}):
                if r == p.region and path[:len(p.path)] == p.path and len(path) == len(p.path) + 2 \
                        and isinstance(path[-2], tuple):
                    a = eng.cell(st, r, path, I)
                    keys.append(((r, path), a))
        for k, a in keys:
            w = 1 if kind == 'slots' else k[1][-2][1]
            na = eng.fresh('re', a.sort())
            j = z3.Int('j?%s' % na.decl().name())
            st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, w * j + w <= old, w * j + w <= new),
                                                z3.Select(na, j) == z3.Select(a, j)),
                                patterns=[z3.Select(na, j)]))
            eng.note_write(k)
            st.cells[k] = na
        k = self.capcell(p.region, p.path)
        eng.note_write(k)
        st.cells[k] = new
        return [('ret', st, p)]

    def free(self, eng, st, args, info):
        return [('ret', st, None)]

    def qsort(self, eng, st, args, info):
        """assumed: qsort permutes the array so that it is sorted by the comparator's contract"""
        base, n, w, f = args
        sp = getattr(self, 'comparators', {}).get(f.name) if isinstance(f, FnPtr) else None
        if sp is None or not z3.is_int_value(w):
            raise Unsupported('qsort')
        eng.assumed.add('qsort')
        pre, less = sp
        st = st.copy()
        q = base.step(w.as_long(), z3.IntVal(0))
        k = (q.region, q.path)
        a = eng.cell(st, q.region, q.path, I)
        ln = eng.line(info['ins'])
        i, j = z3.Int('qi'), z3.Int('qj')
        if self.caps.get((base.region, base.path)) == 'bytes':
            eng.oblige(st, 'bounds', 'qsort inside the array (line %s)' % ln,
                       z3.And(n >= 0, n * w.as_long() <= self.cap(st, base)))
        eng.oblige(st, 'call-pre', 'qsort: comparator precondition (line %s)' % ln,
                   z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), pre(st, z3.Select(a, i))),
                             patterns=[z3.Select(a, i)]))
        new, P, Q = [eng.fresh(x, a.sort()) for x in ('sorted', 'perm', 'inv')]
        rng = z3.And(i >= 0, i < n)
        st.assume(z3.ForAll([i], z3.Implies(rng, z3.And(
            P[i] >= 0, P[i] < n, new[i] == a[P[i]], Q[P[i]] == i)), patterns=[new[i]]))
        st.assume(z3.ForAll([i], z3.Implies(rng, z3.And(Q[i] >= 0, Q[i] < n, P[Q[i]] == i, new[Q[i]] == a[i])),
                            patterns=[Q[i]]))
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.Not(less(st, new[j], new[i]))),
                            patterns=[z3.MultiPattern(new[i], new[j])]))
        eng.note_write(k)
        st.cells[k] = new
        st.ghost['qsort_inv'] = Q
        return [('ret', st, None)]


def factor(e, ks):
    """i such that e is literally i*ks"""
    for x in (e, z3.simplify(e)):
        if z3.is_app_of(x, z3.Z3_OP_MUL) and x.num_args() == 2:
            a, b = x.arg(0), x.arg(1)
            if same(b, ks):
                return a
            if same(a, ks):
                return b
        if same(x, ks):
            return z3.IntVal(1)
    return None
