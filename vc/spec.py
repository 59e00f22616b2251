"""Typed access to the symbolic memory for contract formulas (driven by the
debug info of the compiled code) and small formula helpers."""
import itertools, re
import z3
from sym import Ptr, I, R, nsel
from ir import Unsupported

_n = itertools.count()


_BADK = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT,
         z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES, z3.Z3_OP_DISTINCT}


def _badpat(t, seen=None):
    """contains interpreted Boolean structure or a binder (not allowed in a pattern)"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        if z3.is_app(x) and x.decl().kind() in _BADK:
            return True
        st.extend(x.children())
    return False


def _free_of(t, vs):
    ids = {v.get_id() for v in vs}
    found = set()
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ids:
            found.add(x.get_id())
        st.extend(x.children())
    return found


def quant(vs, body, pats=()):
    """universal quantifier; patterns z3 cannot use are left to z3's own choice"""
    good = []
    for x in pats:
        xs = list(x) if isinstance(x, (list, tuple)) else [x]
        xs2 = []
        for t in xs:
            if _badpat(t):
                # hoist the ground part out of the way: a pattern may not hold an ite
                xs2 = None
                break
            xs2.append(t)
        if not xs2:
            continue
        cov = set()
        for t in xs2:
            cov |= _free_of(t, vs)
        if len(cov) < len(vs):
            continue
        xs2 = [t for t in xs2 if _free_of(t, vs)]
        good.append(z3.MultiPattern(*xs2) if len(xs2) > 1 else xs2[0])
    if good:
        try:
            return z3.ForAll(vs, body, patterns=good)
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


_depth = [0]


def bound(k, sort=I):
    """bound variables with names that depend on the nesting only, so that equal
    formulas are equal terms"""
    return [z3.Const('q%d_%d_%s' % (_depth[0], i, sort.name()), sort) for i in range(k)]


def qall(f, sort=I, k=None):
    k = f.__code__.co_argcount if k is None else k
    vs = bound(k, sort)
    _depth[0] += 1
    try:
        r = f(*vs)
    finally:
        _depth[0] -= 1
    if isinstance(r, tuple):
        body, p = r
        return quant(vs, body, p if isinstance(p, list) else [p])
    if isinstance(r, bool):
        return z3.BoolVal(r)
    return z3.ForAll(vs, r)


def forall(f, n=None, names=None, pats=None):
    return qall(f)


def exists(f):
    k = f.__code__.co_argcount
    vs = bound(k)
    _depth[0] += 1
    try:
        return z3.Exists(vs, f(*vs))
    finally:
        _depth[0] -= 1


def implies(a, b):
    return z3.Implies(a, b)


And, Or, Not, If = z3.And, z3.Or, z3.Not, z3.If


def ite(c, a, b):
    return z3.If(c, a, b)


class T:
    """object of a debug-info type at a pointer in a state"""

    def __init__(self, eng, st, ptr, di):
        object.__setattr__(self, '_e', eng)
        object.__setattr__(self, '_s', st)
        object.__setattr__(self, '_p', ptr)
        object.__setattr__(self, '_t', eng.mod.di_strip(di) if di else None)

    def _kind(self):
        s = self._e.mod.md.get(self._t, '')
        return s

    def _at(self, ptr, di):
        return mk(self._e, self._s, ptr, di)

    def __getattr__(self, name):
        mem = self._e.mod.di_members(self._t)
        if name not in mem:
            raise Unsupported('no member %s in %s' % (name, self._e.mod.di_full(self._t)))
        off, t = mem[name]
        return mk(self._e, self._s, self._p.off(off), t)

    def loc(self, name):
        off, t = self._e.mod.di_members(self._t)[name]
        return self._p.off(off)

    def locs(self, name=None):
        """locations of all members of a member of plain struct type"""
        if name is not None:
            off, t = self._e.mod.di_members(self._t)[name]
            return T(self._e, self._s, self._p.off(off), t).locs()
        mem = self._e.mod.di_members(self._t)
        return [p for off, t in mem.values() for p in T(self._e, self._s, self._p.off(off), t).locs()] if mem else [self._p]


def leaf_ty(mod, di):
    """scalar LLVM type of a basic/enum debug type, 'ptr', or None"""
    di = mod.di_strip(di)
    if di is None:
        return None
    s = mod.md[di]
    if 'DIBasicType' in s:
        size = int(mod.mdget(di, 'size'))
        enc = mod.mdget(di, 'encoding')
        if enc == 'DW_ATE_float':
            return ('float',) if size == 32 else ('double',)
        return ('i', size)
    if 'DW_TAG_enumeration_type' in s:
        return ('i', 32)
    if 'DW_TAG_pointer_type' in s or 'DW_TAG_reference_type' in s:
        return ('ptr',)
    return None


def mk(eng, st, ptr, di):
    mod = eng.mod
    di = mod.di_strip(di)
    lt = leaf_ty(mod, di)
    if lt and lt[0] != 'ptr':
        return eng.load(st, ptr, lt)
    if lt:
        tgt = mod.mdget(di, 'baseType')
        v = eng.load(st, ptr, ('ptr',))
        return P(eng, st, v, tgt, ptr)
    s = mod.md.get(di, '')
    nm = mod.di_name(di) or ''
    if 'DW_TAG_array_type' in s:
        return A(eng, st, ptr, mod.mdget(di, 'baseType'))
    if re.match(r'(vector|deque)<', nm):
        return V(eng, st, ptr, di)
    return T(eng, st, ptr, di)


def esize(mod, di):
    di = mod.di_strip(di)
    s = mod.mdget(di, 'size')
    return int(s) // 8


class P:
    """pointer value: .t (pointee), [i]"""

    def __init__(self, eng, st, v, di, cellptr):
        self.e, self.s, self.v, self.di, self.cell = eng, st, v, di, cellptr

    def __getitem__(self, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        return mk(self.e, self.s, self.v.step(esize(self.e.mod, self.di), i), self.di)

    @property
    def t(self):
        return mk(self.e, self.s, self.v, self.di)

    @property
    def null(self):
        return self.e.pcmp('eq', self.v, Ptr(None))


class A:
    def __init__(self, eng, st, ptr, di):
        self.e, self.s, self.p, self.di = eng, st, ptr, di

    def __getitem__(self, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        return mk(self.e, self.s, self.p.newstep(esize(self.e.mod, self.di), i), self.di)


SZ = 'SZ'


class V:
    """std::vector / std::deque: .size, [i], .p"""

    def __init__(self, eng, st, ptr, di):
        self.e, self.s, self.p = eng, st, ptr
        self.di = eng.mod.di_strip(di)
        self.et = eng.mod.di_targs(self.di)[0]
        self.stride = esize(eng.mod, self.et)

    @property
    def size(self):
        return vsize(self.e, self.s, self.p)

    def __getitem__(self, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        return mk(self.e, self.s, velem(self.p, self.stride, i), self.et)


def vsize_ptr(p):
    return Ptr(p.region, p.path + (SZ, 0), p.idx)


def vsize(eng, st, p):
    return eng.load(st, vsize_ptr(p), ('i', 64))


def velem(p, stride, i):
    return p.newstep(stride, i, 'V')
