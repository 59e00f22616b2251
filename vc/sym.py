"""Symbolic execution / verification-condition generation over LLVM IR with
function contracts and loop invariants.

Semantics used (all stated as assumptions in the evidence):
 * integers are mathematical (signed canonical form); unsigned operations and
   narrowing conversions are converted exactly, signed overflow is assumed not
   to happen;
 * float/double are real numbers; pow/log10/... are uninterpreted functions;
 * memory is a set of disjoint typed regions reached from the parameters
   (separation), addressed by region + access path + symbolic indices;
 * std:: containers are replaced by assumed contracts (stl.py).
"""
import re, itertools, os
import z3
from ir import Unsupported, parse_type, skip_attrs, split_top, Instr

z3.set_param('smt.random_seed', 7)
I = z3.IntSort()
R = z3.RealSort()


class Ptr:
    __slots__ = ('region', 'path', 'idx', 'null')

    def __init__(self, region, path=(0,), idx=(), null=None):
        self.region, self.path, self.idx, self.null = region, tuple(path), tuple(idx), null

    def off(self, n):
        if n == 0:
            return self
        p = self.path[:-1] + (self.path[-1] + n,)
        return Ptr(self.region, p, self.idx)

    def step(self, stride, i, kind='s'):
        """array indexing with an explicit stride"""
        if len(self.path) >= 3 and self.path[-1] == 0 and isinstance(self.path[-2], tuple) \
                and self.path[-2][1] == stride:
            return Ptr(self.region, self.path, self.idx[:-1] + (_add(self.idx[-1], i),))
        return Ptr(self.region, self.path + ((kind, stride), 0), self.idx + (i,))

    def newstep(self, stride, i, kind='s'):
        return Ptr(self.region, self.path + ((kind, stride), 0), self.idx + (i,))

    def deref(self, stride=None):
        p = Ptr(self.region, self.path + ('D', 0), self.idx)
        if stride:
            p = p.newstep(stride, z3.IntVal(0))
        return p

    def __repr__(self):
        return 'Ptr(%s,%s,%s)' % (self.region, self.path, [str(i) for i in self.idx])


class FnPtr:
    def __init__(self, name):
        self.name = name


class PtrInt:
    def __init__(self, p):
        self.p = p


class Opaque:
    def __init__(self, what=''):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


NULL = Ptr(None)


def _add(a, b):
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.IntVal(a.as_long() + b.as_long())
    if z3.is_int_value(b) and b.as_long() == 0:
        return a
    if z3.is_int_value(a) and a.as_long() == 0:
        return b
    return a + b


def nested_sort(path, leaf):
    s = leaf
    for e in path:
        if isinstance(e, tuple):
            s = z3.ArraySort(I, s)
    return s


def nsel(a, idx):
    for i in idx:
        a = z3.Select(a, i)
    return a


def nstore(a, idx, v):
    if not idx:
        return v
    if len(idx) == 1:
        return z3.Store(a, idx[0], v)
    return z3.Store(a, idx[0], nstore(z3.Select(a, idx[0]), idx[1:], v))


class State:
    __slots__ = ('cells', 'pc', 'hv', 'ghost')

    def __init__(self):
        self.cells, self.pc, self.hv, self.ghost = {}, [], [], {}

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.pc = list(self.pc)
        s.hv = list(self.hv)
        s.ghost = dict(self.ghost)
        return s

    def assume(self, e):
        if isinstance(e, bool):
            e = z3.BoolVal(e)
        if z3.is_and(e):
            for x in e.children():
                self.assume(x)
            return
        if z3.is_true(e):
            return
        self.pc.append(e)


class Frame:
    __slots__ = ('fn', 'regs', 'parent', 'uid', 'loops', 'names', 'args', 'entry')

    def __init__(self, fn, parent, uid):
        self.fn, self.regs, self.parent, self.uid = fn, {}, parent, uid
        self.loops = None
        self.entry = None

    def copy(self):
        f = Frame(self.fn, self.parent, self.uid)
        f.regs = dict(self.regs)
        f.loops = dict(self.loops)
        f.args = self.args
        f.entry = self.entry
        return f


class Obligation:
    def __init__(self, name, kind, pc, goal, where, fn):
        self.name, self.kind, self.pc, self.goal, self.where, self.fn = \
            name, kind, list(pc), goal, where, fn
        self.result = None


class Spec:
    """Contract of one function."""

    def __init__(self, fn, requires=None, ensures=None, assigns=None, loops=None,
                 inl_loops=None, setup=None, exits=None, modular=True, inline=(),
                 use=(), unroll=0, lemmas=None, frame=True, timeout=None, note='',
                 ptrs=None, result=None, pure=False, exit_cond=None, trusted=False,
                 unit=None, overflow=False, name=None, maxpaths=4000, vtable=None,
                 callhints=None, ghost=None, reads=None, onthrow=(), throws=False):
        self.__dict__.update(locals())
        del self.__dict__['self']


class Loop:
    """inv: list of (name, lambda c: formula); unroll: bound for full unrolling"""

    def __init__(self, inv=(), unroll=0, assume=None, hint=None, keep=None):
        self.inv, self.unroll, self.hint = list(inv), unroll, hint
        self.keep = keep


class Ctx:
    """What a contract formula can talk about."""

    def __init__(self, eng, st, old, args, result=None, frame=None, loop=None, at=None):
        self.eng, self.st, self.o, self.args, self.result = eng, st, old, args, result
        self.frame, self.loop, self.at = frame, loop, at
        self._old = None

    @property
    def old(self):
        if self._old is None:
            self._old = Ctx(self.eng, self.o, self.o, self.args, None, self.frame, self.loop)
        return self._old

    @property
    def pre(self):
        """state when the innermost loop was entered"""
        return Ctx(self.eng, self.at, self.o, self.args, None, self.frame, self.loop)

    def a(self, name):
        for k, v in self.args:
            if k == name:
                return v
        n = int(name) if isinstance(name, int) else None
        if n is not None:
            return self.args[n][1]
        al = self.eng.alias_arg(self, name)
        if al is not None:
            return al
        if name == 'this' and self.args:
            return self.args[0][1]           # a declaration: parameters are known by position only
        raise Unsupported('no parameter ' + str(name))

    def v(self, name):
        return self.eng.var(self, name)

    def obj(self, p, tname):
        if isinstance(p, str):
            p = self.a(p)
        from spec import T
        return T(self.eng, self.st, p, self.eng.mod.find_di_type(tname))

    def ld(self, p, t='i32'):
        ty, _ = parse_type(t + ' ')
        return self.eng.load(self.st, p, ty)

    def G(self, name, ty='i32'):
        return self.ld(Ptr('@' + name), ty)


def callee_local(k, uid):
    """cell of a local of a function inlined into frame uid"""
    m = re.match(r'%(\d+)\.', k[0]) if isinstance(k[0], str) else None
    return bool(m) and int(m.group(1)) > uid


class Engine:
    def __init__(self, mod, specs, stl=None, dry=False):
        self.mod = mod
        self.specs = specs
        self.stl = stl
        self.obls = []
        self.init = {}
        self.ptrinfo = {}
        self.slotted = {}
        self.fresh_n = itertools.count()
        self.notes = set()
        self.assumed = set()
        self.used_contracts = set()
        self.inlined = set()
        self.writes = None        # set of keys while collecting loop writes
        self.dry = 0
        self.axioms = []
        self.feas_cache = {}
        self.npaths = 0
        self.cur = None
        self.covers = []
        self.locals_base = {}
        self.ranges = True
        self.nofeas = False
        self.memhook = None
        self.slots, self.constcells, self.stores = {}, {}, {}
        self.inspec = 0

    mulfun = False            # products of two unknown reals as an uninterpreted function

    def rmul(self, a, b):
        if self.mulfun and not z3.is_rational_value(z3.simplify(a)) and not z3.is_rational_value(z3.simplify(b)):
            return self.ufn('product', R, R, R)(a, b)
        return a * b

    # ------------------------------------------------------------ helpers
    def fresh(self, name, sort=I):
        return z3.Const('%s!%d' % (name, next(self.fresh_n)), sort)

    def leafsort(self, ty):
        k = ty[0]
        if k == 'i':
            return I
        if k in ('float', 'double', 'x86_fp80'):
            return R
        raise Unsupported('leaf type %r' % (ty,))

    # ------------------------------------------------------------ memory
    def initcell(self, st, region, path, sort):
        ver = 0
        for (r, pre, v) in reversed(st.hv):
            if r == region and path[:len(pre)] == pre:
                ver = v
                break
        key = (region, path, ver)
        if key not in self.init:
            nm = '%s.%s' % (region, '.'.join(
                ('[%s]' % e[1] if isinstance(e, tuple) else str(e)) for e in path))
            if ver:
                nm += '~%d' % ver
            self.init[key] = z3.Const(nm, nested_sort(path, sort))
        return self.init[key]

    def cell(self, st, region, path, sort):
        k = (region, path)
        if k in st.cells:
            return st.cells[k]
        return self.initcell(st, region, path, sort)

    def load(self, st, p, ty):
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        if p.region is None:
            raise Unsupported('load through null')
        if ty[0] == 'ptr':
            return self.loadptr(st, p)
        if (p.region, p.path) in self.constcells:
            return self.constcells[(p.region, p.path)]
        if ty[0] in ('named', 'struct'):
            out = []
            for i in range(len((self.mod.types[ty[1]] if ty[0] == 'named' else ty)[1])):
                o, f = self.mod.field(ty, i)
                out.append(self.load(st, p.off(o), f))
            return tuple(out)
        if p.region.startswith('@') and (p.region, p.path) not in st.cells:
            c = self.globconst(p, ty)
            if c is not None:
                return c
        if 'STRC' in p.path or 'STR' in p.path:
            raise Unsupported('character of an abstract string')
        if self.memhook:
            v = self.memhook.load(self, st, p, ty)
            if v is not None:
                return v
        a = self.cell(st, p.region, p.path, self.leafsort(ty))
        if isinstance(a, (Ptr, FnPtr, Opaque)):
            raise Unsupported('integer load of a pointer cell')
        v = nsel(a, p.idx)
        if v.sort() != self.leafsort(ty):
            raise Unsupported('type-punned load')
        return v

    def globconst(self, p, ty):
        g = self.mod.globals.get(p.region[1:])
        if g and re.search(r'\bconstant\b', g.split('[')[0].split('"')[0]) and not p.idx \
                and p.path == (0,):
            m = re.search(r'constant (i\d+|float|double) (\S+?)(,|$)', g)
            if m:
                t, _ = parse_type(m.group(1) + ' ')
                return self.const(t, m.group(2))
        return None

    def loadptr(self, st, p):
        k = (p.region, p.path)
        if k in st.cells:
            v = st.cells[k]
            if isinstance(v, (Ptr, FnPtr, Opaque, PtrInt)):
                return v
            raise Unsupported('pointer load of a scalar cell')
        # virtual table pointer
        if p.region.startswith('@') and p.region[1:].startswith('_ZTV'):
            return self.vtslot(p)
        vt = self.ptrinfo.get((p.region, p.path))
        if isinstance(vt, str) and vt.startswith('vtable:'):
            nm, _, grp = vt[7:].partition('+')
            # offset of the address point of the grp-th table in the group
            sizes = [int(x) for x in re.findall(r'\[(\d+) x ptr\]', self.mod.globals[nm].split('} {')[0])]
            return Ptr('@' + nm, (16 + 8 * sum(sizes[:int(grp or 0)]),))
        if p.region in ('@stderr', '@stdout', '@stdin'):
            return Ptr('#' + p.region)
        if isinstance(vt, Ptr):
            return vt
        if isinstance(vt, dict):
            q = p.deref(vt.get('stride'))
            if vt.get('nullable'):
                q.null = nsel(self.cell(st, p.region, p.path + ('null',), I), p.idx) == 1
            return q
        return p.deref()

    def vtslot(self, p):
        init = self.mod.globals.get(p.region[1:])
        if init is None:
            raise Unsupported('no vtable ' + p.region)
        off = p.path[-1] if len(p.path) == 1 else None
        if off is None and len(p.path) == 3:
            off = p.path[0] + p.path[1][1] * p.idx[0].as_long()
        if off is None:
            raise Unsupported('vtable access')
        ents = [e for g in re.findall(r'\[\d+ x ptr\] \[(.*?)\](?=[, ]|$)', init) for e in split_top(g)]
        e = ents[off // 8]
        m = re.match(r'ptr @("[^"]*"|[-\w.$]+)', e)
        if not m:
            raise Unsupported('vtable entry ' + e)
        return FnPtr(m.group(1).strip('"'))

    def note_write(self, k):
        if self.writes is not None:
            self.writes.add(k)

    def store(self, st, p, v, ty):
        if not isinstance(p, Ptr) or p.region is None:
            raise Unsupported('store through %r' % (p,))
        k = (p.region, p.path)
        self.note_write(k)
        if isinstance(v, tuple):
            for i, x in enumerate(v):
                o, f = self.mod.field(ty, i)
                self.store(st, p.off(o), x, f)
            return
        if isinstance(v, (Ptr, FnPtr, Opaque, PtrInt)):
            if p.idx:
                if any(h(self, st, p, v) for h in getattr(self, 'ptrstores', [])):
                    return
                raise Unsupported('store of a pointer at a symbolic index')
            st.cells[k] = v
            return
        if self.memhook and self.memhook.store(self, st, p, v, ty):
            return
        a = self.cell(st, p.region, p.path, v.sort())
        if isinstance(a, (Ptr, FnPtr, Opaque, PtrInt)):
            if p.idx:
                raise Unsupported('scalar over pointer')
            st.cells[k] = v
            return
        st.cells[k] = nstore(a, p.idx, v)

    def havoc_prefix(self, st, region, path):
        """forget everything stored at or below region/path"""
        ver = next(self.fresh_n) + 1
        for k in list(st.cells):
            if k[0] == region and k[1][:len(path)] == path:
                del st.cells[k]
                self.note_write(k)
        # initial cells already read are covered by the version tag
        for (r, pth, v) in list(self.init):
            if r == region and pth[:len(path)] == path:
                self.note_write((r, pth))
        st.hv.append((region, tuple(path), ver))
        self.note_write((region, tuple(path), 'prefix'))

    def havoc_key(self, st, k):
        if len(k) == 3:
            self.havoc_prefix(st, k[0], k[1])
            return
        v = st.cells.get(k)
        if v is None:
            # find sort from an initial cell
            for (r, pth, ver), c in self.init.items():
                if (r, pth) == k:
                    st.cells[k] = self.fresh('h_%s' % (k[0],), c.sort())
                    return
            return
        if isinstance(v, Ptr):
            if v.region is None or not v.idx:
                return
            st.cells[k] = Ptr(v.region, v.path, v.idx[:-1] + (self.fresh('hp'),))
            return
        if isinstance(v, (FnPtr, Opaque, PtrInt)):
            return
        st.cells[k] = self.fresh('h_%s' % (k[0],), v.sort())

    # ------------------------------------------------------------ constants
    def const(self, ty, s):
        s = s.strip()
        k = ty[0]
        if k == 'i':
            if s == 'true':
                return z3.BoolVal(True)
            if s == 'false':
                return z3.BoolVal(False)
            if s in ('undef', 'poison'):
                return self.fresh('undef')
            if s == 'zeroinitializer':
                return z3.IntVal(0)
            return z3.IntVal(int(s))
        if k in ('float', 'double'):
            if s in ('undef', 'poison'):
                return self.fresh('undef', R)
            return self.fconst(s)
        if k == 'x86_fp80':
            return self.fresh('fp80', R)
        if k == 'ptr':
            if s in ('null', 'undef', 'poison'):
                return NULL
        if s in ('undef', 'poison') and k in ('struct', 'named'):
            t = self.mod.types[ty[1]] if k == 'named' else ty
            return tuple(self.const(f, 'undef') for f in t[1])
        raise Unsupported('constant %s %s' % (ty, s))

    def fconst(self, s):
        import struct
        from fractions import Fraction
        if s.startswith('0x'):
            d = struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
        else:
            d = float(s)
        if d != d or d in (float('inf'), float('-inf')):
            return z3.Real('fp_%s' % s)
        fr = Fraction(d)
        # decimal constants of the source: take the short decimal when the float is its rounding
        for digits in range(1, 18):
            t = '%.*g' % (digits, d)
            if float(t) == d:
                fr = Fraction(t)
                break
            if struct.unpack('f', struct.pack('f', float(t)))[0] == d:
                fr = Fraction(t)
                break
        return z3.RealVal(str(fr))

    def val(self, fr, st, ty, s):
        s = s.strip()
        if s[0] == '%':
            if s not in fr.regs:
                raise Unsupported('undefined register ' + s)
            return fr.regs[s]
        if s[0] == '@':
            return self.globalref(s[1:].strip('"'))
        if s.startswith('getelementptr'):
            m = re.match(r'getelementptr (?:inbounds )?\((.*)\)$', s)
            return self.gep(fr, st, m.group(1).replace('inrange ', ''))
        if s.startswith('inttoptr') or s.startswith('ptrtoint'):
            raise Unsupported(s)
        return self.const(ty, s)

    def globalref(self, name):
        if name in self.mod.funcs and name not in self.mod.globals:
            return FnPtr(name)
        return Ptr('@' + name)

    def tv(self, fr, st, s):
        """'type [attrs] value' -> (type, value)"""
        ty, p = parse_type(s + ' ')
        a, p = skip_attrs(s, p)
        return ty, self.val(fr, st, ty, s[p:].strip())

    # ------------------------------------------------------------ gep
    def gep(self, fr, st, text, res=None):
        text = re.sub(r'^(inbounds|nuw|nusw) ', '', text)
        parts = split_top(text)
        ty, _ = parse_type(parts[0] + ' ')
        _, base = self.tv(fr, st, parts[1])
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        if base.region is None:
            raise Unsupported('gep on null')
        idxs = [self.tv(fr, st, x)[1] for x in parts[2:]]
        p = base
        i0 = idxs[0]
        es = self.slots.get((base.region, base.path)) if ty == ('i', 8) else None
        if es:
            # byte table of `es`-byte slots
            e = None
            if z3.is_int_value(i0) and i0.as_long() % es == 0:
                e = z3.IntVal(i0.as_long() // es)
            elif z3.is_mul(i0) and i0.num_args() == 2:
                for a, b in (i0.children(), i0.children()[::-1]):
                    if z3.is_int_value(b) and b.as_long() == es:
                        e = a
            if e is None:
                raise Unsupported('offset into a byte table')
            p = p.newstep(es, e)
        elif z3.is_int_value(i0) and i0.as_long() == 0:
            if len(idxs) == 1 and res and re.match(r'%"?(arrayidx|incdec)', res):
                p = p.step(self.mod.sizeof(ty), i0)
        elif ty == ('i', 8) and z3.is_int_value(i0) and not (
                len(p.path) >= 3 and p.path[-1] == 0 and p.path[-2] == ('s', 1)):
            p = p.off(i0.as_long())      # byte offset to a base subobject
        else:
            p = p.step(self.mod.sizeof(ty), i0)
        for ix in idxs[1:]:
            if ty[0] == 'named':
                ty = self.mod.types[ty[1]]
            if ty[0] == 'struct':
                o, f = self.mod.field(ty, ix.as_long())
                p = p.off(o)
                ty = f
            elif ty[0] == 'arr':
                p = p.newstep(self.mod.sizeof(ty[2]), ix)
                ty = ty[2]
            else:
                raise Unsupported('gep into %r' % (ty,))
        return p

    # ------------------------------------------------------------ int ops
    def U(self, v, w):
        if z3.is_int_value(v):
            x = v.as_long()
            return z3.IntVal(x if x >= 0 else x + 2 ** w)
        return z3.If(v < 0, v + 2 ** w, v)

    def S(self, v, w):
        """wrap a mathematical integer to signed w bits"""
        if z3.is_int_value(v):
            x = v.as_long() & (2 ** w - 1)
            return z3.IntVal(x - 2 ** w if x >= 2 ** (w - 1) else x)
        h = 2 ** (w - 1)
        return z3.If(z3.And(v >= -h, v < h), v, (v + h) % (2 ** w) - h)

    def tdiv(self, a, b):
        if z3.is_int_value(b) and b.as_long() > 0:
            return z3.If(a >= 0, a / b, -((-a) / b))
        return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))),
                     z3.If(b > 0, -((-a) / b), (-a) / (-b)))

    def trem(self, a, b):
        return a - self.tdiv(a, b) * b

    uf = {}

    def ufn(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in Engine.uf:
            Engine.uf[k] = z3.Function(name, *sorts)
        return Engine.uf[k]

    def binop(self, op, flags, w, a, b):
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                return self.ptrdiff(a.p, b.p)
            raise Unsupported('pointer arithmetic through integers')
        if w == 1:
            if op == 'and':
                return z3.And(a, b)
            if op == 'or':
                return z3.Or(a, b)
            if op == 'xor':
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if op == 'add':
            return _add(a, b)
        if op == 'sub':
            if z3.is_int_value(a) and z3.is_int_value(b):
                return z3.IntVal(a.as_long() - b.as_long())
            return a - b
        if op == 'mul':
            if z3.is_int_value(a) and z3.is_int_value(b):
                return z3.IntVal(a.as_long() * b.as_long())
            return a * b
        if op == 'sdiv':
            return self.tdiv(a, b)
        if op == 'srem':
            return self.trem(a, b)
        if op == 'udiv':
            return self.U(a, w) / self.U(b, w)
        if op == 'urem':
            return self.S(self.U(a, w) % self.U(b, w), w)
        if op == 'shl' and z3.is_int_value(b):
            if 'nsw' in flags or 'nuw' in flags:
                return a * (2 ** b.as_long())
            return self.S(a * (2 ** b.as_long()), w)
        if op == 'ashr' and z3.is_int_value(b):
            return a / (2 ** b.as_long())
        if op == 'lshr' and z3.is_int_value(b):
            return self.U(a, w) / (2 ** b.as_long())
        if op == 'xor' and z3.is_int_value(b) and b.as_long() == -1:
            return -1 - a
        if op == 'and' and z3.is_int_value(b) and b.as_long() >= 0 and \
                (b.as_long() & (b.as_long() + 1)) == 0:
            return self.U(a, w) % (b.as_long() + 1)
        # bit operations on words: uninterpreted, but in range
        f = self.ufn('bit_%s_%d' % (op, w), I, I, I)
        return self.S(f(a, b), w)

    def ptrdiff(self, p, q):
        if p.region == q.region and p.path == q.path and len(p.idx) == len(q.idx):
            if not p.idx:
                return z3.IntVal(0)
            if isinstance(p.path[-2], tuple):
                return (p.idx[-1] - q.idx[-1]) * p.path[-2][1]
        raise Unsupported('difference of unrelated pointers')

    def icmp(self, pred, w, a, b):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.pcmp(pred, a, b)
        if isinstance(a, PtrInt):
            return self.pcmp(pred, a.p, b.p)
        if w == 1:
            if pred == 'eq':
                return a == b
            if pred == 'ne':
                return a != b
            raise Unsupported('i1 icmp')
        if pred == 'eq':
            return a == b
        if pred == 'ne':
            return a != b
        if pred[0] == 'u':
            a, b = self.U(a, w), self.U(b, w)
            pred = 's' + pred[1:]
        return {'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred]

    def pcmp(self, pred, a, b):
        def isnull(x):
            if isinstance(x, FnPtr):
                return z3.BoolVal(False)
            if isinstance(x, (Opaque,)):
                return z3.BoolVal(False)
            if x.region is None:
                return z3.BoolVal(True)
            return x.null if x.null is not None else z3.BoolVal(False)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            raise Unsupported('opaque pointer comparison')
        an = isinstance(a, Ptr) and a.region is None
        bn = isinstance(b, Ptr) and b.region is None
        if an or bn:
            e = z3.BoolVal(True) if (an and bn) else (isnull(b) if an else isnull(a))
            if pred == 'eq':
                return e
            if pred == 'ne':
                return z3.Not(e)
            raise Unsupported('null ordering')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = z3.BoolVal(isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name)
            return e if pred == 'eq' else z3.Not(e)
        if a.region == b.region and a.path == b.path:
            if pred in ('eq', 'ne'):
                e = z3.And([x == y for x, y in zip(a.idx, b.idx)]) if a.idx else z3.BoolVal(True)
                return e if pred == 'eq' else z3.Not(e)
            x, y = a.idx[-1], b.idx[-1]
            p2 = pred[1:]
            return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p2]
        if pred == 'eq':
            return z3.BoolVal(False)
        if pred == 'ne':
            return z3.BoolVal(True)
        raise Unsupported('ordering of unrelated pointers')

    # ------------------------------------------------------------ solving
    def quick(self, pc, extra=None):
        """False iff the path is definitely infeasible"""
        if self.nofeas:
            return True
        s = z3.SolverFor('QF_AUFNIRA') if False else z3.Solver()
        s.set('timeout', 150)
        for e in pc:
            if not _has_quant(e):
                s.add(e)
        if extra is not None:
            s.add(extra)
        return s.check() != z3.unsat

    def oblige(self, st, kind, name, goal, where=''):
        if self.dry:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = z3.simplify(goal) if not _has_quant(goal) else goal
        o = Obligation('%s: %s' % (self.cur, name), kind, st.pc, goal, where, self.cur)
        if z3.is_true(g):
            o.result = 'proved'
            o.solver = 'simplifier'
        self.obls.append(o)

    # ------------------------------------------------------------ CFG
    def succs(self, fn, lab):
        ins = fn.blocks[lab][-1]
        if ins.op == 'br':
            return [x.strip('"') for x in re.findall(r'label %("[^"]*"|[-\w.$]+)', ins.text)]
        if ins.op == 'switch':
            return [x.strip('"') for x in re.findall(r'label %("[^"]*"|[-\w.$]+)', ins.text)]
        if ins.op == 'invoke':
            m = re.search(r'to label %("[^"]*"|[-\w.$]+) unwind', ins.text)
            return [m.group(1).strip('"')]
        return []

    def loops(self, fn):
        """header -> set of body blocks (natural loops), source order"""
        if hasattr(fn, '_loops'):
            return fn._loops
        order = fn.order
        succ = {b: self.succs(fn, b) for b in order}
        reach = []
        seen = set()

        def dfs(b):
            stack = [(b, iter(succ[b]))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(succ[y])))
                        break
                else:
                    reach.append(x)
                    stack.pop()
        dfs(order[0])
        rpo = reach[::-1]
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        dom = {b: set(rpo) for b in rpo}
        dom[order[0]] = {order[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                n = set.intersection(*[dom[p] for p in pred[b]]) | {b} if pred[b] else {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work += pred[x]
        for b in rpo:
            for s in succ[b]:
                if s not in dom[b] and rpo.index(s) <= rpo.index(b):
                    raise Unsupported('irreducible control flow')
        fn._loops = {h: loops[h] for h in order if h in loops}
        return fn._loops

    # ------------------------------------------------------------ execution
    def call_function(self, fn, args, st, parent=None, depth=0):
        """inline execution; yields (kind, state, value)"""
        if depth > 60:
            raise Unsupported('inlining too deep')
        fr = Frame(fn, parent, next(self.fresh_n))
        fr.loops = {}
        fr.args = [(p[1].lstrip('%').strip('"'), v) for p, v in zip(fn.params, args)]
        for p, v in zip(fn.params, args):
            fr.regs[p[1]] = v
        fr.entry = st.copy() if parent is None else st
        self.loops(fn)
        yield from self.run(fr, st, fn.order[0], None, depth)

    def loopspec(self, fr, header):
        spec = self.curspec
        k = list(self.loops(fr.fn)).index(header)
        n = len(self.loops(fr.fn))
        if fr.parent is None:
            ls = spec.loops
        else:
            ls = (spec.inl_loops or {}).get(fr.fn.demangled)
        if ls is None:
            return Loop()
        if callable(ls):
            return ls(fr, header)
        if len(ls) != n:
            # nested helpers extracted or loops added: match is ambiguous
            raise Unsupported('loop structure of %s changed (%d loops, contract has %d)'
                              % (fr.fn.demangled, n, len(ls)))
        return ls[k]

    def lctx(self, fr, st, header, at):
        return Ctx(self, st, self.entry, self.rootargs, None, fr, header, at)

    def jump(self, fr, st, src, dst, depth):
        """control transfer src -> dst; yields outcomes"""
        loops = self.loops(fr.fn)
        if dst in loops:
            body = loops[dst]
            ls = self.loopspec(fr, dst)
            if src in body and dst in fr.loops:
                rec = fr.loops[dst]
                if rec[0] == 'unroll':
                    if rec[1] >= ls.unroll:
                        # must be infeasible
                        self.oblige(st, 'unwind', 'loop %s is exited within %d iterations'
                                    % (dst, ls.unroll), z3.BoolVal(False), dst)
                        return
                    fr = fr.copy()
                    fr.loops[dst] = ('unroll', rec[1] + 1)
                    yield from self.run(fr, st, dst, src, depth)
                    return
                if rec[0] == 'dry':
                    for k in self.writes:
                        if len(k) == 3:
                            rec[2].add(k)
                            continue
                        a, b = rec[1].cells.get(k), st.cells.get(k)
                        if a is None and isinstance(b, z3.ExprRef):
                            a = self.initcell(rec[1], k[0], k[1], _leaf(b.sort()))
                        if b is None and isinstance(a, z3.ExprRef):
                            b = self.initcell(st, k[0], k[1], _leaf(a.sort()))
                        if not _same(a, b):
                            rec[2].add(k)
                    return
                c = self.lctx(fr, st, dst, rec[1])
                self.check_inv(c, st, ls, 'preserved', fr, dst)
                self.check_ptrs(st, rec[2], rec[3])
                return
            # loop entry
            if ls.unroll:
                fr = fr.copy()
                fr.loops[dst] = ('unroll', 0)
                yield from self.run(fr, st, dst, src, depth)
                return
            at = st.copy()
            c = self.lctx(fr, st, dst, at)
            self.check_inv(c, st, ls, 'initially', fr, dst)
            W = self.loop_writes(fr, st, src, dst, depth)
            st = st.copy()
            for k in sorted(W, key=str):
                self.havoc_key(st, k)
            if self.writes is not None:
                self.writes |= W
            fr = fr.copy()
            fr.loops[dst] = ('inv', at, W, dict(st.cells))
            c = self.lctx(fr, st, dst, at)
            for nm, f in ls.inv:
                st.assume(f(c))
            yield from self.run(fr, st, dst, src, depth)
            return
        yield from self.run(fr, st, dst, src, depth)

    def check_inv(self, c, st, ls, what, fr, header):
        if self.dry:
            return
        where = '%s loop %d' % (fr.fn.demangled, list(self.loops(fr.fn)).index(header) + 1)
        acc = st
        for nm, f in ls.inv:
            self.oblige(st, 'invariant', '%s: invariant "%s" %s' % (where, nm, what), f(c), where)

    def check_ptrs(self, st, W, havocked):
        for k in W:
            if len(k) == 3:
                continue
            a, b = havocked.get(k), st.cells.get(k)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                    continue      # local to the body
                if a.region is None and b.region is None:
                    continue
                if k[0].startswith('%') and self.body_local(k):
                    continue
                if a.region != b.region or a.path != b.path or a.idx[:-1] != b.idx[:-1]:
                    if self.ptr_written_first(k):
                        continue
                    raise Unsupported('pointer %s changes its target in a loop' % (k,))
                if a.idx != b.idx and not a.idx:
                    raise Unsupported('pointer moves in a loop')

    def body_local(self, k):
        return k in self.bodylocals

    def ptr_written_first(self, k):
        return False

    def loop_writes(self, fr, st, src, dst, depth):
        """keys possibly written by the loop body (fixpoint of dry runs)"""
        W = set()
        start = next(self.fresh_n)       # blocks allocated in the body are not visible before it
        saved = self.writes
        for _ in range(8):
            s2 = st.copy()
            for k in sorted(W, key=str):
                self.havoc_key(s2, k)
            s2.pc = list(st.pc)
            self.writes = set()
            self.dry += 1
            f2 = fr.copy()
            changed = set()
            f2.loops[dst] = ('dry', s2.copy(), changed)
            body = self.loops(fr.fn)[dst]
            ob = getattr(self, 'drystop', [])
            self.drystop = ob + [(f2.uid, body)]
            try:
                for _o in self.run(f2, s2, dst, src, depth):
                    pass
            finally:
                self.dry -= 1
                self.drystop = ob
            new = {k for k in changed | W if not callee_local(k, f2.uid)
                   and not (k[0].startswith('#new') and k[0][4:].isdigit() and int(k[0][4:]) > start)}
            self.writes = saved
            # dead regions (locals of inlined callees) never matter
            if new == W:
                break
            W = new
        else:
            raise Unsupported('loop frame does not stabilise')
        return W

    def run(self, fr, st, lab, prev, depth):
        fn = fr.fn
        while True:
            if getattr(self, 'drystop', None):
                uid, body = self.drystop[-1]
                if fr.uid == uid and lab not in body:
                    return
            blk = fn.blocks[lab]
            # phis first (parallel)
            newv = {}
            n = 0
            while n < len(blk) and blk[n].op == 'phi':
                ins = blk[n]
                t, p = parse_type(ins.text[4:] + ' ')
                for m in re.finditer(r'\[ (.*?), %("[^"]*"|[-\w.$]+) \]', ins.text):
                    if prev is not None and m.group(2).strip('"') == prev.split('#')[0]:
                        newv[ins.res] = self.val(fr, st, t, m.group(1))
                n += 1
            fr.regs.update(newv)
            jumped = False
            while n < len(blk):
                ins = blk[n]
                n += 1
                op = ins.op
                if op == 'br':
                    if ins.text.startswith('br label'):
                        dst = re.match(r'br label %("[^"]*"|[-\w.$]+)', ins.text).group(1).strip('"')
                        if dst in self.loops(fn):
                            yield from self.jump(fr, st, lab, dst, depth)
                            return
                        prev, lab = lab, dst
                        jumped = True
                        break
                    m = re.match(r'br i1 (.*), label %("[^"]*"|[-\w.$]+), label %("[^"]*"|[-\w.$]+)',
                                 ins.text)
                    cond = z3.simplify(self.val(fr, st, ('i', 1), m.group(1)))
                    t, f = m.group(2).strip('"'), m.group(3).strip('"')
                    if z3.is_true(cond) or z3.is_false(cond):
                        dst = t if z3.is_true(cond) else f
                        if dst in self.loops(fn):
                            yield from self.jump(fr, st, lab, dst, depth)
                            return
                        prev, lab = lab, dst
                        jumped = True
                        break
                    for dst, c in ((t, cond), (f, z3.Not(cond))):
                        s2 = st.copy()
                        s2.assume(z3.simplify(c))
                        if not self.quick(s2.pc):
                            continue
                        self.npaths += 1
                        if self.npaths > self.curspec.maxpaths:
                            raise Unsupported('too many paths')
                        yield from self.jump(fr.copy(), s2, lab, dst, depth)
                    return
                if op == 'switch':
                    m = re.match(r'switch (\S+) (.*?), label %("[^"]*"|[-\w.$]+) \[(.*)\]', ins.text)
                    t, _ = parse_type(m.group(1) + ' ')
                    v = self.val(fr, st, t, m.group(2))
                    cases = re.findall(r'i\d+ (-?\d+), label %("[^"]*"|[-\w.$]+)', m.group(4))
                    neg = []
                    for k, dst in cases:
                        s2 = st.copy()
                        s2.assume(v == int(k))
                        neg.append(v != int(k))
                        if self.quick(s2.pc):
                            yield from self.jump(fr.copy(), s2, lab, dst.strip('"'), depth)
                    s2 = st.copy()
                    for e in neg:
                        s2.assume(e)
                    if self.quick(s2.pc):
                        yield from self.jump(fr.copy(), s2, lab, m.group(3).strip('"'), depth)
                    return
                if op == 'ret':
                    if ins.text.strip() == 'ret void':
                        yield ('ret', st, None)
                    else:
                        _, v = self.tv(fr, st, ins.text[4:])
                        yield ('ret', st, v)
                    return
                if op == 'unreachable':
                    yield ('exit', st, 'unreachable')
                    return
                if op == 'resume':
                    yield ('throw', st, None)
                    return
                if op in ('call', 'invoke'):
                    outs = self.do_call(fr, st, ins, depth)
                    single = []
                    # common case: exactly one normal outcome -> stay in this loop
                    it = iter(outs)
                    first = next(it, None)
                    second = next(it, None) if first is not None else None
                    if first is None:
                        return
                    nxt = None
                    if op == 'invoke':
                        nxt = re.search(r'to label %("[^"]*"|[-\w.$]+) unwind', ins.text) \
                            .group(1).strip('"')
                    if second is None:
                        kind, st2, v = first
                        if kind != 'ret':
                            yield first
                            return
                        st = st2
                        if ins.res:
                            fr.regs[ins.res] = v
                        if nxt:
                            if nxt in self.loops(fn):
                                yield from self.jump(fr, st, lab, nxt, depth)
                                return
                            prev, lab = lab, nxt
                            jumped = True
                            break
                        continue
                    for kind, st2, v in itertools.chain([first, second], it):
                        if kind != 'ret':
                            yield (kind, st2, v)
                            continue
                        f2 = fr.copy()
                        if ins.res:
                            f2.regs[ins.res] = v
                        if nxt:
                            yield from self.jump(f2, st2, lab, nxt, depth)
                        else:
                            yield from self.run_from(f2, st2, lab, n, prev, depth)
                    return
                if op == 'select':
                    parts = split_top(ins.text[7:])
                    _, c = self.tv(fr, st, parts[0])
                    t, a = self.tv(fr, st, parts[1])
                    _, b = self.tv(fr, st, parts[2])
                    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
                        fr.regs[ins.res] = z3.If(c, a, b)
                        continue
                    for cc, vv in ((c, a), (z3.Not(c), b)):
                        s2 = st.copy()
                        s2.assume(z3.simplify(cc))
                        if self.quick(s2.pc):
                            f2 = fr.copy()
                            f2.regs[ins.res] = vv
                            yield from self.run_from(f2, s2, lab, n, prev, depth)
                    return
                self.step(fr, st, ins)
            if not jumped:
                return

    def run_from(self, fr, st, lab, n, prev, depth):
        """continue in the middle of a block"""
        fn = fr.fn
        key = '%s#%d' % (lab, n)
        if key not in fn.blocks:
            fn.blocks[key] = fn.blocks[lab][n:]
            base = lab.split('#')[0]
            for h, body in self.loops(fn).items():
                if base in body or lab in body:
                    body.add(key)
            # phi predecessors keep the original name
        yield from self._run_alias(fr, st, key, lab, depth)

    def _run_alias(self, fr, st, key, lab, depth):
        yield from self.run(fr, st, key, lab.split('#')[0], depth)

    # ------------------------------------------------------------ simple instrs
    def step(self, fr, st, ins):
        op, text = ins.op, ins.text
        if op == 'alloca':
            t, _ = parse_type(text[7:] + ' ')
            nm = '%%%d.%s' % (fr.uid, ins.res[1:].strip('"'))
            p = Ptr(nm)
            # a re-executed alloca (loop body) is a new object: drop old cells
            fr.regs[ins.res] = p
            self.alloca_t = getattr(self, 'alloca_t', {})
            self.alloca_t[nm] = t
            return
        if op == 'load':
            m = re.match(r'load (?:volatile )?', text)
            parts = split_top(text[m.end():])
            t, _ = parse_type(parts[0] + ' ')
            _, p = self.tv(fr, st, parts[1])
            self.arrcheck(st, p, ins)
            if self.memhook:
                self.memhook.check(st, p, ins)
            if self.curspec.reads:
                self.check_read(st, p, ins)
            if t == ('i', 1):
                v = self.load(st, p, ('i', 8)) != 0
            else:
                v = self.load(st, p, t)
            if self.ranges and t[0] == 'i' and t[1] <= 16 and t[1] > 1 and isinstance(v, z3.ExprRef) \
                    and not z3.is_int_value(v):
                h = 2 ** (t[1] - 1)
                st.assume(z3.And(v >= -h, v < h))
            fr.regs[ins.res] = v
            return
        if op == 'store':
            m = re.match(r'store (?:volatile )?', text)
            parts = split_top(text[m.end():])
            t, v = self.tv(fr, st, parts[0])
            _, p = self.tv(fr, st, parts[1])
            self.arrcheck(st, p, ins)
            if self.memhook:
                self.memhook.check(st, p, ins)
            if isinstance(v, z3.BoolRef):
                v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            self.store(st, p, v, t)
            return
        if op == 'getelementptr':
            fr.regs[ins.res] = self.gep(fr, st, text[len('getelementptr '):], ins.res)
            return
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr',
                  'and', 'or', 'xor'):
            m = re.match(r'(\w+) ((?:nuw |nsw |exact )*)(\S+) (.*)$', text)
            t, _ = parse_type(m.group(3) + ' ')
            a, b = split_top(m.group(4))
            a, b = self.val(fr, st, t, a), self.val(fr, st, t, b)
            if op in ('sdiv', 'srem', 'udiv', 'urem') and not z3.is_int_value(b):
                self.oblige(st, 'safety', 'no division by zero (line %s)' % self.line(ins), b != 0)
            if self.curspec.overflow and 'nsw' in m.group(2) and op in ('add', 'sub', 'mul') \
                    and t[1] in (32, 64):
                rr = self.binop(op, m.group(2), t[1], a, b)
                h = 2 ** (t[1] - 1)
                self.oblige(st, 'overflow', 'no signed overflow (line %s)' % self.line(ins),
                            z3.And(rr >= -h, rr < h))
            r = self.binop(op, m.group(2), t[1], a, b)
            if op in ('add', 'sub', 'mul') and 'nsw' not in m.group(2) and 'nuw' not in m.group(2) \
                    and t[1] == 32 and isinstance(r, z3.ExprRef):
                pass      # unsigned arithmetic treated as mathematical
            fr.regs[ins.res] = r
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            m = re.match(r'(\w+) (?:fast |contract |nnan |ninf |nsz |arcp |afn |reassoc )*(\S+) (.*)$', text)
            t, _ = parse_type(m.group(2) + ' ')
            a, b = split_top(m.group(3))
            a, b = self.val(fr, st, t, a), self.val(fr, st, t, b)
            fr.regs[ins.res] = {'fadd': lambda: a + b, 'fsub': lambda: a - b,
                                'fmul': lambda: self.rmul(a, b), 'fdiv': lambda: a / b}[op]()
            return
        if op == 'fneg':
            m = re.match(r'fneg (\S+) (.*)$', text)
            t, _ = parse_type(m.group(1) + ' ')
            fr.regs[ins.res] = -self.val(fr, st, t, m.group(2))
            return
        if op == 'icmp':
            m = re.match(r'icmp (\w+) (.*)$', text)
            t, p = parse_type(m.group(2) + ' ')
            a, b = split_top(m.group(2)[p:])
            a, b = self.val(fr, st, t, a), self.val(fr, st, t, b)
            fr.regs[ins.res] = self.icmp(m.group(1), t[1] if t[0] == 'i' else 64, a, b)
            return
        if op == 'fcmp':
            m = re.match(r'fcmp (\w+) (\S+) (.*)$', text)
            t, _ = parse_type(m.group(2) + ' ')
            a, b = split_top(m.group(3))
            a, b = self.val(fr, st, t, a), self.val(fr, st, t, b)
            p = m.group(1)
            if p in ('uno', 'ord'):
                fr.regs[ins.res] = z3.BoolVal(p == 'ord')
                return
            p = p[1:] if len(p) == 3 else p
            fr.regs[ins.res] = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b,
                                'gt': a > b, 'ge': a >= b}[p]
            return
        if op in ('sext', 'zext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                  'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            m = re.match(r'\w+ (?:nneg )?(.*)$', text)
            body = m.group(1)
            src, dst = body.rsplit(' to ', 1) if ' to ' in body else (body, None)
            t, v = self.tv(fr, st, src)
            d = parse_type(dst + ' ')[0] if dst else t
            fr.regs[ins.res] = self.conv(st, op, t, d, v)
            return
        if op == 'extractvalue':
            parts = split_top(text[13:])
            _, v = self.tv(fr, st, parts[0])
            for x in parts[1:]:
                v = v[int(x)]
            fr.regs[ins.res] = v
            return
        if op == 'insertvalue':
            parts = split_top(text[12:])
            _, v = self.tv(fr, st, parts[0])
            _, x = self.tv(fr, st, parts[1])
            v = list(v)
            v[int(parts[2])] = x
            fr.regs[ins.res] = tuple(v)
            return
        if op == 'landingpad':
            fr.regs[ins.res] = (Opaque('exc'), z3.IntVal(0))
            return
        raise Unsupported('instruction ' + text[:60])

    def arrcheck(self, st, p, ins):
        """accesses to a local array stay inside it"""
        for (r, pre), es in self.slots.items():
            if isinstance(p, Ptr) and p.region == r and p.path[:len(pre)] == pre and len(p.path) > len(pre) and p.path[len(pre)] == ('s', es):
                k = sum(isinstance(e, tuple) for e in pre)
                S = next(s for s in self.stores.values() if s.data.path == pre and s.data.region == r)
                self.oblige(st, 'bounds', 'access to an existing entry of the store (line %s)' % self.line(ins),
                            z3.And(p.idx[k] >= 0, p.idx[k] < S.n(st, p.idx[:k])))
        if isinstance(p, Ptr) and p.region is not None and p.region.startswith('#new') and len(p.path) == 3 \
                and p.path[0] == 0 and isinstance(p.path[1], tuple):
            n = self.__dict__.get('newsize', {}).get(p.region)
            if n is not None:
                w = p.path[1][1]
                self.oblige(st, 'bounds', 'access inside the allocated array (line %s)' % self.line(ins),
                            z3.And(p.idx[0] >= 0, w * p.idx[0] + w <= n))
        if isinstance(p, Ptr) and p.region is not None and p.region.startswith('%') and len(p.path) == 3 \
                and p.path[0] == 0 and isinstance(p.path[1], tuple):
            t = self.alloca_t.get(p.region)
            if t is not None and t[0] == 'arr' and self.mod.sizeof(t[2]) == p.path[1][1]:
                self.oblige(st, 'bounds', 'access inside the local array (line %s)' % self.line(ins),
                            z3.And(p.idx[0] >= 0, p.idx[0] < t[1]))

    def check_read(self, st, p, ins):
        """reads clause: the result is a function of the listed cells only"""
        if p.region.startswith('%'):
            if (p.region, p.path) not in st.cells:
                self.oblige(st, 'reads', 'no read of an uninitialised local (line %s)' % self.line(ins),
                            z3.BoolVal(False))
            return
        c = Ctx(self, st, self.entry, self.rootargs)
        ok = []
        for q, cond in self.curspec.reads(c):
            if q.region == p.region and q.path == p.path:
                ok.append(cond(p.idx) if cond else z3.BoolVal(True))
        self.oblige(st, 'reads', 'reads only what the result may depend on (line %s)' % self.line(ins),
                    z3.Or(ok) if ok else z3.BoolVal(False))

    def conv(self, st, op, t, d, v):
        if op == 'freeze':
            return v
        if op == 'sext':
            if t == ('i', 1):
                return z3.If(v, z3.IntVal(-1), z3.IntVal(0))
            return v
        if op == 'zext':
            if t == ('i', 1):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return self.U(v, t[1])
        if op == 'trunc':
            if d == ('i', 1):
                v = z3.simplify(v)
                if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)):
                    return z3.simplify(v % 2 == 1)
                # a bool object is 0 or 1
                st.assume(z3.Or(v == 0, v == 1))
                return v == 1
            if isinstance(v, PtrInt):
                raise Unsupported('trunc of pointer')
            return self.S(v, d[1])
        if op in ('fpext', 'fptrunc'):
            return v
        if op == 'sitofp':
            return z3.ToReal(v)
        if op == 'uitofp':
            if t == ('i', 1):
                return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            return z3.ToReal(self.U(v, t[1]))
        if op in ('fptosi', 'fptoui'):
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if op == 'ptrtoint':
            if isinstance(v, Ptr):
                return PtrInt(v)
            raise Unsupported('ptrtoint')
        if op == 'inttoptr':
            if isinstance(v, PtrInt):
                return v.p
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            if t == d:
                return v
        raise Unsupported('%s %s' % (op, t))

    def line(self, ins):
        if ins.line:
            return self.mod.mdget(ins.line, 'line') or '?'
        return '?'

    # ------------------------------------------------------------ calls
    CALLEE = re.compile(r'^(?:call|invoke)\s+(.*)$')

    def do_call(self, fr, st, ins, depth):
        text = ins.text
        if ins.aux is None:
            m = re.match(r'^(?:call|invoke) ', text)
            s = text[m.end():]
            s = re.sub(r'^(fast|contract|nnan|ninf|nsz|arcp|afn|reassoc) ', '', s)
            a, p = skip_attrs(s)
            rt, p = parse_type(s, p)
            if rt[0] == 'func':
                rt = rt[1]
            while s[p] == ' ':
                p += 1
            m = re.compile(r'(@(?:"[^"]*"|[-\w.$]+)|%(?:"[^"]*"|[-\w.$]+))\(').match(s, p)
            if not m:
                raise Unsupported('call ' + text[:80])
            d, q = 0, m.end() - 1
            while True:
                if s[q] == '(':
                    d += 1
                elif s[q] == ')':
                    d -= 1
                    if d == 0:
                        break
                q += 1
            ins.aux = (rt, m.group(1), split_top(s[m.end():q]), a)
        rt, callee, argtext, retattr = ins.aux
        args = []
        for x in argtext:
            if x.startswith('metadata'):
                args.append(None)
                continue
            args.append(self.tv(fr, st, x)[1])
        if callee[0] == '%':
            f = fr.regs[callee]
            if not isinstance(f, FnPtr):
                raise Unsupported('indirect call')
            name = f.name
        else:
            name = callee[1:].strip('"')
        yield from self.invoke(name, args, st, fr, depth, rt, retattr, ins)

    def invoke(self, name, args, st, fr, depth, rt, retattr, ins):
        fn = self.mod.funcs.get(name)
        dem = fn.demangled if fn else name
        if self.stl:
            h = self.stl.lookup(name, dem, fn)
            if h:
                r = h(self, st, args, dict(name=name, dem=dem, fn=fn, rt=rt, retattr=retattr,
                                           ins=ins, frame=fr, depth=depth))
                if r is not None:
                    yield from r
                    return
        spec = self.specs.get(dem)
        if spec is not None and spec.modular and dem not in self.curspec.inline:
            yield from self.apply_contract(spec, fn, args, st, fr, ins)
            return
        if fn is not None and fn.defined:
            if dem.startswith(('std::', '__gnu_cxx::')) or ' std::' in dem.split('(')[0]:
                if not (self.stl and self.stl.may_inline(dem)):
                    raise Unsupported('library function ' + dem)
            else:
                self.inlined.add(dem)
            yield from self.call_function(fn, args, st, fr, depth + 1)
            return
        raise Unsupported('external function ' + dem)

    def apply_contract(self, spec, fn, args, st, fr, ins):
        self.used_contracts.add(spec.fn)
        A = list(zip(self.pnames(fn), args))
        old = st
        c = Ctx(self, st, st, A)
        for nm, f in (spec.requires or []):
            self.oblige(st, 'call-pre', 'call of %s (line %s): precondition "%s"'
                        % (spec.fn, self.line(ins), nm), f(c))
        st = st.copy()
        if spec.exit_cond is not None:
            # the callee terminates the process in these cases
            e = spec.exit_cond(c)
            s3 = st.copy()
            s3.assume(e)
            if self.quick(s3.pc):
                yield ('throw' if spec.throws else 'exit', s3, spec.fn)
            st.assume(z3.Not(e))
            if not self.quick(st.pc):
                return
        if spec.assigns:
            for p in spec.assigns(c):
                if isinstance(p, Ptr):
                    self.havoc_prefix(st, p.region, p.path)
                else:
                    ptr, sort = p
                    k = (ptr.region, ptr.path)
                    self.note_write(k)
                    a = self.cell(st, ptr.region, ptr.path, sort)
                    st.cells[k] = nstore(a, ptr.idx, self.fresh('asg', nsel(a, ptr.idx).sort()))
        rv = None
        if fn.rettype[0] != 'void':
            if spec.result:
                rv = spec.result(Ctx(self, st, old, A))
            elif fn.rettype == ('i', 1):
                rv = self.fresh('r_' + fn.name, z3.BoolSort())
            elif fn.rettype[0] in ('i', 'float', 'double'):
                rv = self.fresh('r_' + fn.name, self.leafsort(fn.rettype))
                if fn.rettype[0] == 'i':
                    h = 2 ** (fn.rettype[1] - 1)
                    st.assume(z3.And(rv >= -h, rv < h))
            else:
                raise Unsupported('result of ' + spec.fn)
        c = Ctx(self, st, old, A, rv)
        for nm, f in (spec.ensures or []) + getattr(spec, 'determ', []):
            st.assume(f(c))
        yield ('ret', st, rv)

    # ------------------------------------------------------------ names
    def pnames(self, fn):
        """names of the parameters as the contracts know them: a renamed parameter keeps its recorded name"""
        cur = [n.lstrip('%').strip('"') for t, n, at in fn.params]
        old = self.locals_base.get(fn.demangled, {}).get('params')
        if not old or len(old) != len(cur) or set(old) & {n for n, o in zip(cur, old) if n != o}:
            return cur           # unknown function, or the parameters changed places
        return list(old)

    def alias_arg(self, c, name):
        """renamed parameter: match by position of the recorded name"""
        fn = self.curfn
        base = self.locals_base.get(self.curspec.fn)
        if not base or c.args is not self.rootargs:
            return None
        names = base.get('params', [])
        if name in names and len(names) == len(c.args):
            return c.args[names.index(name)][1]
        return None

    def var(self, c, name):
        """value of a source-level local variable in the frame of the loop"""
        fr = c.frame
        f = fr
        while f is not None:
            p = self.findvar(f, name, c.loop if f is fr else None)
            if p is not None:
                t = self.alloca_t.get(p.region)
                if t is None:
                    t = ('i', 32)
                if t[0] == 'ptr':
                    return self.load(c.st, p, t)
                if t == ('i', 8):
                    return self.load(c.st, p, t)
                if t[0] in ('i', 'float', 'double'):
                    return self.load(c.st, p, t)
                return p
            f = f.parent
        raise Unsupported('no variable %s' % name)

    def carried(self, fn):
        """for each loop the variables it changes from round to round (written inside and outside of it)"""
        if not hasattr(fn, '_carried'):
            fn._carried = []
            pats = {al: re.compile(r'(^\s*store .*, ptr %s(?![-\w.$]))|(\b(call|invoke)\b.*%s(?![-\w.$]))' % (re.escape(al), re.escape(al)))
                    for al in fn.dbgvar}
            hit = {al: {b for b in fn.order for i in fn.blocks[b] if i.op in ('store', 'call', 'invoke')
                        and 'llvm.dbg' not in i.text and pt.search(i.text if i.op == 'store' else 'call ' + i.text)} for al, pt in pats.items()}
            for h, body in self.loops(fn).items():
                fn._carried.append([al for al in fn.dbgvar if hit[al] & set(body) and hit[al] - set(body)])
        return fn._carried

    def recast(self, fr, name, loop):
        """the variable that took over the role of name in this loop: name changed from round to round on the tree the
        contracts were written for and does not any more, and exactly one other variable of its type does so now"""
        fn = fr.fn
        base = self.locals_base.get(fn.demangled, {}).get('carried')
        if not base or len(base) != len(self.loops(fn)):
            return None
        k = list(self.loops(fn)).index(loop)
        if name not in base[k]:
            return None
        now = self.carried(fn)[k]
        if any(fn.dbgvar[al] == name for al in now):
            return None
        new = [al for al in now if fn.dbgvar[al] not in base[k] and al in fr.regs]
        old = [al for al, nm in fn.dbgvar.items() if nm == name and al in fr.regs]
        if old:
            t = self.alloca_t.get(fr.regs[old[0]].region)
            new = [al for al in new if self.alloca_t.get(fr.regs[al].region) == t]
        return new[0] if len(new) == 1 else None

    def findvar(self, fr, name, loop):
        fn = fr.fn
        if loop:
            al = self.recast(fr, name, loop)
            if al:
                return fr.regs[al]
        c = [al for al, nm in fn.dbgvar.items() if nm == name and al in fr.regs]
        if not c:
            base = self.locals_base.get(fn.demangled)
            if base:
                bl = base.get('locals', [])
                cur = list(fn.dbgvar.values())
                if len(bl) == len(cur) and name in bl:
                    # same number of variables: positional renaming, only if unambiguous
                    cand = [i for i, n in enumerate(bl) if n == name]
                    diff = [i for i in range(len(bl)) if bl[i] != cur[i]]
                    if all(i in diff for i in cand):
                        als = list(fn.dbgvar)
                        c = [als[i] for i in cand if als[i] in fr.regs]
            if not c:
                return None
        if len(c) > 1 and loop:
            # the variable the loop, or the innermost loop around it, works with
            mine = set(self.loops(fn)[loop])
            for body in sorted((set(x) for x in self.loops(fn).values()), key=len):
                if not mine <= body:
                    continue
                used = []
                for al in c:
                    pat = re.compile(re.escape(al) + r'(?![-\w.$])')
                    if any(pat.search(i.text) for b in body for i in fn.blocks[b]):
                        used.append(al)
                if used:
                    c = used
                    break
        return fr.regs[c[0]]

    # ------------------------------------------------------------ top level
    def verify(self, spec):
        fn = self.mod.find(spec.fn)
        if fn is None or not fn.defined:
            raise Unsupported('function %s not found in the code' % spec.fn)
        self.cur = spec.name or spec.fn
        self.curspec = spec
        self.curfn = fn
        self.bodylocals = set()
        self.drystop = []
        self.alloca_t = {}
        st = State()
        args = []
        self.ptrinfo = {}
        for (t, n, at), nm in zip(fn.params, self.pnames(fn)):
            if t[0] == 'ptr':
                args.append(Ptr(nm))
            elif t == ('i', 1):
                args.append(z3.Bool(nm))
            else:
                v = z3.Const(nm, self.leafsort(t))
                args.append(v)
                if t[0] == 'i':
                    h = 2 ** (t[1] - 1)
                    st.pc.append(z3.And(v >= -h, v < h))
        names = self.pnames(fn)
        if spec.ptrs:
            args = spec.ptrs(self, args, names, st)
        self.rootargs = list(zip(names, args))
        c = Ctx(self, st, st, self.rootargs)
        if spec.setup:
            spec.setup(c)
        for nm, f in (spec.requires or []):
            st.assume(f(c))
        self.entry = st.copy()
        self.entry_pc = list(st.pc)
        nret = nexit = 0
        covers = []
        for kind, s2, v in self.call_function(fn, args, st):
            if kind == 'ret':
                nret += 1
                c = Ctx(self, s2, self.entry, self.rootargs, v)
                covers.append(list(s2.pc))
                if spec.ghost:
                    spec.ghost(c)
                for nm, f in (spec.ensures or []):
                    self.oblige(s2, 'post', 'postcondition "%s" (path %d)' % (nm, nret), f(c))
                if spec.frame:
                    self.frame_check(spec, s2, c, nret)
            elif kind in ('exit', 'throw'):
                nexit += 1
                c = Ctx(self, s2, self.entry, self.rootargs, None)
                if spec.exits is not None:
                    self.oblige(s2, 'exit', 'terminates only when allowed (exit path %d)' % nexit,
                                spec.exits(c))
                for nm, f in spec.onthrow if kind == 'throw' else ():
                    self.oblige(s2, 'exit', 'when refused: "%s" (exit path %d)' % (nm, nexit), f(c))
        self.covers = covers
        return nret, nexit

    def frame_check(self, spec, st, c, n):
        pre = []
        for p in (spec.assigns(c.old) if spec.assigns else []):
            if isinstance(p, tuple):
                p = p[0]
            pre.append((p.region, p.path))
        for k, v in st.cells.items():
            r = k[0]
            if r.startswith(('%', '#')):
                continue
            if any(r == a and k[1][:len(b)] == b for a, b in pre):
                continue
            if isinstance(v, (Ptr, FnPtr, Opaque, PtrInt)):
                continue
            o = self.entry.cells.get(k)
            if o is None:
                o = self.initcell(self.entry, k[0], k[1], _leaf(v.sort()))
            if z3.eq(o, v):
                continue
            self.oblige(st, 'frame', 'frame: %s%s unchanged (path %d)' % (k[0], _ps(k[1]), n), v == o)


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.region == b.region and a.path == b.path and len(a.idx) == len(b.idx) and \
            all(_same(x, y) for x, y in zip(a.idx, b.idx))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b) or (a.sort() == b.sort() and not _has_quant(a) and z3.simplify(a).eq(z3.simplify(b)))
    return False


def _leaf(s):
    while s.kind() == z3.Z3_ARRAY_SORT:
        s = s.range()
    return s


def _ps(path):
    return '.'.join('[%d]' % e[1] if isinstance(e, tuple) else str(e) for e in path)


_hq = {}


def _has_quant(e):
    k = e.get_id()
    if k in _hq and _hq[k][0].eq(e):
        return _hq[k][1]
    stack, seen, r = [e], set(), False
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x):
            r = True
            break
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        stack += x.children()
    _hq[k] = (e, r)
    return r
