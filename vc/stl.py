"""Assumed contracts of the C/C++ standard library (the trusted base)."""
import re
import z3
from sym import Ptr, FnPtr, Opaque, PtrInt, I, R, nsel, nstore, nested_sort, NULL, _leaf
from spec import vsize, vsize_ptr, velem, SZ
from ir import Unsupported

MAXSZ = 2 ** 31 - 2     # containers are assumed to stay below this size


def targ(dem, name):
    """first template argument of std::name< ... >"""
    i = dem.index(name + '<') + len(name) + 1
    d, j = 1, i
    while d:
        if dem[j] in '<(':
            d += 1
        elif dem[j] in '>)':
            d -= 1
            if not d:
                break
        elif dem[j] == ',' and d == 1:
            break
        j += 1
    return dem[i:j].strip()


def after_class(dem, name):
    """text after 'std::name<...>' """
    i = dem.index(name + '<') + len(name) + 1
    d, j = 1, i
    while d:
        if dem[j] in '<(':
            d += 1
        elif dem[j] in '>)':
            d -= 1
        j += 1
    return dem[j:]


BASIC = {'int': ('i', 32), 'unsigned int': ('i', 32), 'long': ('i', 64), 'unsigned long': ('i', 64),
         'float': ('float',), 'double': ('double',), 'bool': ('i', 8), 'char': ('i', 8),
         'unsigned char': ('i', 8), 'short': ('i', 16), 'unsigned short': ('i', 16)}


class TyDesc:
    """element type description: size and scalar leaves (path suffix, sort)"""

    def __init__(self, size, leaves, zero=True):
        self.size, self.leaves, self.zero = size, leaves, zero


def aleaves(eng, ty, off=0):
    """scalar leaves of an LLVM type: (path suffix, sort); an array of scalars is one leaf per field of its element"""
    mod = eng.mod
    if ty[0] == 'named':
        ty = mod.types[ty[1]]
    if ty[0] == 'struct':
        r = []
        for i in range(len(ty[1])):
            o, f = mod.field(ty, i)
            if f[0] == 'arr' and f[2] == ('i', 8):
                continue        # padding
            r += aleaves(eng, f, off + o)
        return r
    if ty[0] == 'arr':
        es = mod.sizeof(ty[2])
        r = []
        for suf, s in aleaves(eng, ty[2]):
            r.append(((off, ('s', es)) + suf, s))
        return r
    if ty[0] == 'ptr':
        raise Unsupported('pointer member in a container element')
    return [((off,), eng.leafsort(ty))]


def tydesc(eng, t):
    t = t.strip()
    if t in BASIC:
        ty = BASIC[t]
        return TyDesc(eng.mod.sizeof(ty), [((0,), eng.leafsort(ty))])
    if t.startswith('std::__cxx11::basic_string<char') or t == 'std::string':
        import strmap
        return strmap.STRDESC
    if t.startswith('std::map<'):
        import strmap
        return strmap.mapdesc(eng, t)
    if t.endswith('*'):
        raise Unsupported('container of pointers')
    m = re.match(r'(?:std::)?(vector|deque)<', t)
    if m:
        el = tydesc(eng, targ(t, m.group(1)))
        lv = [((0, SZ, 0), I)]
        for p, s in el.leaves:
            lv.append(((0, ('V', el.size)) + p, s))
        return TyDesc(24 if m.group(1) == 'vector' else 80, lv)
    for pre in ('struct.', 'class.'):
        if pre + t in eng.mod.types:
            ty = ('named', pre + t)
            lv = aleaves(eng, ty)
            return TyDesc(eng.mod.sizeof(ty), lv, zero=False)
    raise Unsupported('container element type ' + t)


def join(p, suf):
    """append a path suffix to a pointer path"""
    path = p.path[:-1] + (p.path[-1] + suf[0],) + suf[1:]
    return path


def stars(path):
    return sum(1 for e in path if isinstance(e, tuple))


def copy_val(eng, st, src, dst, td):
    for suf, s in td.leaves:
        sp, dp = join(src, suf), join(dst, suf)
        a = eng.cell(st, src.region, sp, s)
        v = nsel(a, src.idx)
        k = (dst.region, dp)
        eng.note_write(k)
        b = eng.cell(st, dst.region, dp, s)
        st.cells[k] = nstore(b, dst.idx, v)


def zero_of(sort):
    if sort == I:
        return z3.IntVal(0)
    if sort == R:
        return z3.RealVal(0)
    if sort.kind() == z3.Z3_ARRAY_SORT:
        return z3.K(sort.domain(), zero_of(sort.range()))
    raise Unsupported('zero of %s' % sort)


def set_size(eng, st, p, n):
    eng.store(st, vsize_ptr(p), n, ('i', 64))


def get_size(eng, st, p):
    n = vsize(eng, st, p)
    st.assume(z3.And(n >= 0, n <= MAXSZ))
    return n


def whole(eng, st, p, suf, sort):
    """array of element leaves of the container at p (indexed by element)"""
    path = join(p, (0,)) + suf
    a = eng.cell(st, p.region, path, sort)
    return path, nsel(a, p.idx)


def set_whole(eng, st, p, path, leafsort, arr):
    k = (p.region, path)
    eng.note_write(k)
    a = eng.cell(st, p.region, path, leafsort)
    st.cells[k] = nstore(a, p.idx, arr)


def fill(eng, st, p, td, lo, hi, valptr):
    """elements [lo,hi) := *valptr (None: zero); others unchanged"""
    for suf, s in td.leaves:
        path, arr = whole(eng, st, p, (('V', td.size),) + suf, s)
        if valptr is None:
            v = zero_of(arr.sort().range()) if td.zero else None
        else:
            v = nsel(eng.cell(st, valptr.region, join(valptr, suf), s), valptr.idx)
        na = eng.fresh('fill', arr.sort())
        j = z3.Int('j?%s' % na.decl().name())
        inside = z3.And(j >= lo, j < hi)
        if v is None:
            body = z3.Implies(z3.Not(inside), z3.Select(na, j) == z3.Select(arr, j))
        else:
            body = z3.Select(na, j) == z3.If(inside, v, z3.Select(arr, j))
        st.assume(z3.ForAll([j], body, patterns=[z3.Select(na, j)]))
        set_whole(eng, st, p, path, s, na)


def ranged(eng, st, p, td, first, last):
    """a new vector with the elements first..last of another"""
    f, l = itpos(eng, st, first), itpos(eng, st, last)
    if f is None or l is None or (f.region, f.path, len(f.idx)) != (l.region, l.path, len(l.idx)) or td.size == 0:
        raise Unsupported('range constructor')
    st = st.copy()
    n = l.idx[-1] - f.idx[-1]
    eng.oblige(st, 'call-pre', 'range of the constructor', n >= 0)
    for suf, s in td.leaves:
        path, arr = whole(eng, st, p, (('V', td.size),) + suf, s)
        sp = f.path[:-1] + suf
        src = nsel(eng.cell(st, f.region, sp, s), f.idx[:-1])
        na = eng.fresh('range', arr.sort())
        j = z3.Int('j?%s' % na.decl().name())
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(na, j) == z3.Select(src, j + f.idx[-1])), patterns=[z3.Select(na, j)]))
        for hook in getattr(eng, 'onrange', []):
            hook(eng, st, na, src, f.idx[-1], n)
        set_whole(eng, st, p, path, s, na)
    set_size(eng, st, p, n)
    return ret(st)


def itpos(eng, st, it):
    """element an iterator argument points to"""
    if not isinstance(it, Ptr):
        return None
    if it.idx and it.path[-1] == 0:
        return it
    return None


class Stl:
    def __init__(self):
        self.rules = []
        self.cache = {}
        self.used = set()

    def lookup(self, name, dem, fn):
        key = name
        if key not in self.cache:
            self.cache[key] = self._find(name, dem, fn)
        h = self.cache[key]
        if h:
            return h
        return None

    def _find(self, name, dem, fn):
        for pat, h in self.rules:
            if re.match(pat, dem):
                return h
        if name.startswith('llvm.'):
            return intrinsics
        if name in CFUN:
            return CFUN[name]
        import strmap
        r = strmap.find(name, dem)
        if r:
            return r
        m = re.match(r'(?:[\w:& *<>]*? )?std::(vector|deque)<', dem)
        base = re.sub(r'^.*? (?=std::(?:vector|deque)<)', '', dem) if m and not re.match(r'std::(vector|deque)<', dem) else dem
        m = re.match(r'std::(vector|deque)<', base)
        if m and '::' in after_class(base, m.group(1))[:2]:
            return Vec(m.group(1), base)
        for pat, h in RULES:
            if re.match(pat, dem):
                return h
        return None

    INL = re.compile(
        r'(?:bool |.*?\b)?(std::(min|max|move|forward|swap|make_pair|pair<|tie|get|__niter_|abs|'
        r'_Rb_tree_(const_)?iterator<|__addressof|addressof|begin|end|isfinite|isnan|fabs|pow|operator[!=<>]|initializer_list)|'
        r'__gnu_cxx::__normal_iterator|std::_Rb_tree_(const_)?iterator|__gnu_cxx::operator|operator|bool __gnu_cxx::operator|bool std::operator)')

    def may_inline(self, dem):
        return bool(self.INL.match(dem)) or 'pair<' in dem.split('(')[0] or 'std::move<' in dem \
            or '__normal_iterator' in dem.split('(')[0] or 'std::swap<' in dem \
            or re.search(r'std::(max|min|forward|pow|abs)<', dem) is not None


def ret(st, v=None):
    return [('ret', st, v)]


def Vec(kind, dem):
    rest = after_class(dem, kind)[2:]
    el = targ(dem, kind)
    m = re.match(r'(operator\[\]|operator=|operator[^(\s]+|~?\w+)', rest)
    meth = m.group(1)
    sig = rest[len(meth):]

    def h(eng, st, args, info):
        if el == 'bool':
            raise Unsupported('vector<bool>')
        eng.assumed.add('std::%s::%s' % (kind, meth))
        p = args[0]
        td = None

        def T():
            return tydesc(eng, el)

        def stride():
            m = re.search(r'dereferenceable\((\d+)\)', info['retattr'] or '')
            try:
                return tydesc(eng, el).size
            except Unsupported:
                if m:
                    return int(m.group(1))
                raise
        if meth == 'size':
            return ret(st, get_size(eng, st, p))
        if meth == 'empty':
            return ret(st, get_size(eng, st, p) == 0)
        if meth in ('operator[]', 'at'):
            n = get_size(eng, st, p)
            i = args[1]
            ok = z3.And(i >= 0, i < n)
            if getattr(eng, 'addr0', False) and z3.is_int_value(i) and i.as_long() == 0:
                ok = z3.BoolVal(True)
            if meth == 'operator[]':
                eng.oblige(st, 'bounds', 'index within the %s (line %s)'
                           % (kind, eng.line(info['ins'])), ok)
                st.assume(ok)
            else:
                s2 = st.copy()
                s2.assume(z3.Not(ok))
                outs = []
                if eng.quick(s2.pc):
                    outs.append(('throw', s2, 'at'))
                st.assume(ok)
                return [('ret', st, velem(p, stride(), i))] + outs
            return ret(st, velem(p, stride(), i))
        if meth in ('back', 'front'):
            n = get_size(eng, st, p)
            eng.oblige(st, 'bounds', '%s() of a non-empty %s (line %s)'
                       % (meth, kind, eng.line(info['ins'])), n > 0)
            st.assume(n > 0)
            return ret(st, velem(p, stride(), n - 1 if meth == 'back' else z3.IntVal(0)))
        if meth in ('begin', 'cbegin', 'data') and kind == 'vector':
            get_size(eng, st, p)
            return ret(st, velem(p, stride(), z3.IntVal(0)))
        if meth in ('end', 'cend') and kind == 'vector':
            return ret(st, velem(p, stride(), get_size(eng, st, p)))
        if meth in ('push_back', 'emplace_back'):
            td = T()
            st = st.copy()
            n = get_size(eng, st, p)
            if len(args) != 2:
                raise Unsupported('emplace_back')
            copy_val(eng, st, args[1], velem(p, td.size, n), td)
            set_size(eng, st, p, n + 1)
            st.assume(n + 1 <= MAXSZ)
            return ret(st, None)
        if meth == 'push_front':
            td = T()
            st = st.copy()
            n = get_size(eng, st, p)
            for suf, s in td.leaves:
                path, arr = whole(eng, st, p, (('V', td.size),) + suf, s)
                v = nsel(eng.cell(st, args[1].region, join(args[1], suf), s), args[1].idx)
                na = eng.fresh('shift', arr.sort())
                j = z3.Int('j?%s' % na.decl().name())
                st.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(j == 0, v, z3.Select(arr, j - 1)),
                                    patterns=[z3.Select(na, j)]))
                set_whole(eng, st, p, path, s, na)
            set_size(eng, st, p, n + 1)
            return ret(st, None)
        if meth in ('pop_back', 'pop_front'):
            st = st.copy()
            n = get_size(eng, st, p)
            eng.oblige(st, 'bounds', '%s of a non-empty %s (line %s)'
                       % (meth, kind, eng.line(info['ins'])), n > 0)
            st.assume(n > 0)
            if meth == 'pop_front':
                td = T()
                for suf, s in td.leaves:
                    path, arr = whole(eng, st, p, (('V', td.size),) + suf, s)
                    na = eng.fresh('shift', arr.sort())
                    j = z3.Int('j?%s' % na.decl().name())
                    st.assume(z3.ForAll([j], z3.Select(na, j) == z3.Select(arr, j + 1),
                                        patterns=[z3.Select(na, j)]))
                    set_whole(eng, st, p, path, s, na)
            set_size(eng, st, p, n - 1)
            return ret(st, None)
        if meth == 'clear':
            st = st.copy()
            set_size(eng, st, p, z3.IntVal(0))
            return ret(st, None)
        if meth in ('reserve', 'shrink_to_fit'):
            return ret(st, None)
        if meth == 'capacity':
            c = eng.fresh('capacity')
            st.assume(c >= get_size(eng, st, p))
            return ret(st, c)
        if meth == 'resize':
            st = st.copy()
            if el.endswith('*'):     # positions keep what they point to; new ones are unknown
                set_size(eng, st, p, args[1])
                st.assume(z3.And(args[1] >= 0, args[1] <= MAXSZ))
                return ret(st, None)
            td = T()
            n = get_size(eng, st, p)
            k = args[1]
            fill(eng, st, p, td, n, k, args[2] if len(args) > 2 else None)
            set_size(eng, st, p, k)
            st.assume(z3.And(k >= 0, k <= MAXSZ))
            return ret(st, None)
        if meth == 'assign' and len(args) == 3 and not isinstance(args[1], Ptr):
            td = T()
            st = st.copy()
            fill(eng, st, p, td, z3.IntVal(0), args[1], args[2])
            set_size(eng, st, p, args[1])
            return ret(st, None)
        if meth == kind and sig.startswith('<') and len(args) >= 3:
            return ranged(eng, st, p, T(), args[1], args[2])
        if meth == kind:     # constructors
            td = None
            st = st.copy()
            if len(args) == 1:
                set_size(eng, st, p, z3.IntVal(0))
                return ret(st)
            if isinstance(args[1], Ptr) and kind + '<' in sig.split(',')[0]:
                td = tydesc(eng, 'std::%s<%s>' % (kind, el))
                copy_val(eng, st, args[1], p, td)
                get_size(eng, st, p)
                return ret(st)
            if not isinstance(args[1], Ptr):
                td = T()
                fill(eng, st, p, td, z3.IntVal(0), args[1],
                     args[2] if len(args) > 3 else None)
                set_size(eng, st, p, args[1])
                st.assume(z3.And(args[1] >= 0, args[1] <= MAXSZ))
                return ret(st)
        if meth == 'operator=' and 'initializer_list' not in sig:
            td = tydesc(eng, 'std::%s<%s>' % (kind, el))
            st = st.copy()
            copy_val(eng, st, args[1], p, td)
            return ret(st, p)
        if meth == 'swap':
            td = tydesc(eng, 'std::%s<%s>' % (kind, el))
            st = st.copy()
            q = args[1]
            vals = []
            for suf, s in td.leaves:
                a = nsel(eng.cell(st, p.region, join(p, suf), s), p.idx)
                b = nsel(eng.cell(st, q.region, join(q, suf), s), q.idx)
                vals.append((suf, s, a, b))
            for suf, s, a, b in vals:
                for x, v in ((p, b), (q, a)):
                    k = (x.region, join(x, suf))
                    eng.note_write(k)
                    st.cells[k] = nstore(eng.cell(st, k[0], k[1], s), x.idx, v)
            return ret(st)
        if meth.startswith('~'):
            return ret(st)
        raise Unsupported('std::%s::%s' % (kind, meth))
    return h


def intrinsics(eng, st, args, info):
    n = info['name']
    if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.stacksave', 'llvm.stackrestore',
                     'llvm.experimental.noalias', 'llvm.va_')):
        return ret(st, Ptr('#stack') if 'stacksave' in n else None)
    if n.startswith(('llvm.memcpy', 'llvm.memmove')):
        return memcpy(eng, st, args, info)
    if n.startswith('llvm.memset'):
        return memset(eng, st, args, info)
    if n.startswith('llvm.fabs'):
        return ret(st, z3.If(args[0] < 0, -args[0], args[0]))
    if n.startswith('llvm.fmuladd'):
        return ret(st, eng.rmul(args[0], args[1]) + args[2])
    if n.startswith('llvm.eh.typeid'):
        return ret(st, z3.IntVal(0))
    if n.startswith('llvm.trap'):
        return [('exit', st, 'trap')]
    if n.startswith('llvm.is.fpclass'):
        return ret(st, z3.BoolVal(False))
    if n.startswith(('llvm.smax', 'llvm.umax')):
        return ret(st, z3.If(args[0] > args[1], args[0], args[1]))
    if n.startswith(('llvm.smin', 'llvm.umin')):
        return ret(st, z3.If(args[0] < args[1], args[0], args[1]))
    if n.startswith('llvm.umul.with.overflow'):
        eng.assumed.add('allocation sizes do not overflow size_t')
        return ret(st, (args[0] * args[1], z3.BoolVal(False)))
    if n.startswith('llvm.abs'):
        return ret(st, z3.If(args[0] < 0, -args[0], args[0]))
    raise Unsupported(n)


def memcpy(eng, st, args, info):
    dst, src, n = args[0], args[1], args[2]
    if not (isinstance(dst, Ptr) and isinstance(src, Ptr)):
        raise Unsupported('memcpy')
    eng.assumed.add('memcpy')
    if eng.memhook:
        r = eng.memhook.memcpy(eng, st, args, info)
        if r is not None:
            return r
    if z3.is_int_value(n):
        sz = n.as_long()
        t = None
        for q in (dst, src):
            tt = getattr(eng, 'alloca_t', {}).get(q.region)
            if tt is not None and len(q.path) == 1 and q.path[0] == 0 and eng.mod.sizeof(tt) == sz:
                t = tt
        if t is None:
            t = eng.structhint.get(sz) if hasattr(eng, 'structhint') else None
        if t is None and src.region.startswith('@__const'):
            t = None
        if t is None:
            # opaque bytes -> the tracked cells of the source
            raise Unsupported('memcpy of %d bytes of unknown type' % sz)
        st = st.copy()
        if t[0] == 'arr':
            init = eng.mod.globals.get(src.region[1:]) if src.region.startswith('@') else None
            if init:
                from ir import parse_type, split_top
                m = re.search(r'constant (\[.*)$', init)
                ty, q = parse_type(m.group(1))
                body = m.group(1)[q:].strip()
                body = body[1:body.rindex(']')]
                p0 = dst
                for i, e in enumerate(split_top(body)):
                    et, r = parse_type(e + ' ')
                    eng.store(st, p0.newstep(eng.mod.sizeof(et), z3.IntVal(i)), eng.const(et, e[r:].strip()), et)
                return ret(st, dst)
            el = t[2]
            while el[0] == 'arr':
                raise Unsupported('memcpy of nested array')
            for o, ft in eng.mod.leaves(el):
                s = eng.leafsort(ft)
                sp = src.path + (('s', eng.mod.sizeof(el)), o)
                dp = dst.path + (('s', eng.mod.sizeof(el)), o)
                v = nsel(eng.cell(st, src.region, sp, s), src.idx)
                k = (dst.region, dp)
                eng.note_write(k)
                st.cells[k] = nstore(eng.cell(st, dst.region, dp, s), dst.idx, v)
            return ret(st, dst)
        try:
            lv = aleaves(eng, t)
        except Unsupported:
            lv = None
        if lv is not None:
            if (dst.region, dst.path) != (src.region, src.path):
                copy_val(eng, st, src, dst, TyDesc(sz, lv))
                return ret(st, dst)
        for o, ft in eng.mod.leaves(t):
            eng.store(st, dst.off(o), eng.load(st, src.off(o), ft), ft)
        return ret(st, dst)
    raise Unsupported('memcpy of symbolic size')


def memset(eng, st, args, info):
    dst, v, n = args[:3]
    if dst.region in getattr(eng, 'excregions', ()):
        return ret(st, dst)                      # an exception object
    if z3.is_int_value(v) and v.as_long() == 0 and z3.is_int_value(n):
        t = getattr(eng, 'alloca_t', {}).get(dst.region)
        if t is None or eng.mod.sizeof(t) != n.as_long():
            t = eng.structhint.get(n.as_long()) if hasattr(eng, 'structhint') else None
        if t is not None:
            st = st.copy()
            for o, ft in eng.mod.leaves(t):
                eng.store(st, dst.off(o), zero_of(eng.leafsort(ft)), ft)
            return ret(st, dst)
    raise Unsupported('memset')


def memcmp(eng, st, args, info):
    if eng.memhook:
        r = eng.memhook.memcmp(eng, st, args, info)
        if r is not None:
            return r
    raise Unsupported('memcmp')


def cmem(name):
    def h(eng, st, args, info):
        if eng.memhook:
            return getattr(eng.memhook, name)(eng, st, args, info)
        if name == 'free':
            return noop(eng, st, args, info)
        raise Unsupported(name)
    return h


def pure_real(nm, n=1):
    def h(eng, st, args, info):
        eng.assumed.add(nm)
        f = eng.ufn(nm, *([R] * (n + 1)))
        return ret(st, f(*args[:n]))
    return h


def noop(eng, st, args, info):
    rt = info['rt']
    if rt[0] == 'void':
        return ret(st)
    if rt[0] == 'ptr':
        return ret(st, Opaque(info['dem']))
    if rt == ('i', 1):
        return ret(st, eng.fresh('io', z3.BoolSort()))
    return ret(st, eng.fresh('io', eng.leafsort(rt)))


def exit_(eng, st, args, info):
    return [('exit', st, info['dem'])]


def throw_(eng, st, args, info):
    return [('throw', st, info['dem'])]


def alloc(eng, st, args, info):
    n = '#new%d' % next(eng.fresh_n)
    if info['name'] == '__cxa_allocate_exception':
        eng.__dict__.setdefault('excregions', set()).add(n)
    if info['name'] in ('_Znam', '_Znwm') and args:
        eng.__dict__.setdefault('newsize', {})[n] = args[0]
    return ret(st, Ptr(n))


def rabs(eng, st, args, info):
    return ret(st, z3.If(args[0] < 0, -args[0], args[0]))


def floor_(eng, st, args, info):
    return ret(st, z3.ToReal(z3.ToInt(args[0])))


CFUN = {
    'pow': pure_real('pow', 2), 'powf': pure_real('pow', 2), 'log10': pure_real('log10'),
    'log': pure_real('log'), 'log10f': pure_real('log10'), 'logf': pure_real('log'),
    'exp': pure_real('exp'), 'log2': pure_real('log2'), 'sqrt': pure_real('sqrt'),
    'fabs': rabs, 'fabsf': rabs, 'abs': rabs, 'floor': floor_,
    'exit': exit_, 'abort': exit_, '__assert_fail': exit_, '_ZSt9terminatev': exit_,
    '__cxa_throw': throw_, '__cxa_rethrow': throw_, '_ZSt20__throw_length_errorPKc': throw_,
    '_ZSt20__throw_out_of_rangePKc': throw_, '_ZSt24__throw_out_of_range_fmtPKcz': throw_,
    '__cxa_allocate_exception': alloc, '__cxa_free_exception': noop, '_Znwm': alloc, '_Znam': alloc,
    '_ZdlPv': noop, '_ZdaPv': noop, '_ZdlPvm': noop, 'free': cmem('free'), 'malloc': cmem('malloc'), 'realloc': cmem('realloc'), 'qsort': cmem('qsort'),
    'fprintf': noop, 'printf': noop, 'fputs': noop, 'fputc': noop, 'fflush': noop, 'perror': noop,
    'puts': noop, 'putchar': noop, 'fwrite': noop,
    '__clang_call_terminate': exit_,
    'memcpy': memcpy, 'memmove': memcpy, 'memcmp': memcmp, 'bcmp': memcmp,
}

RULES = [
    (r'std::basic_ostream<', noop),
    (r'std::ostream', noop), (r'std::exception::~?exception\(', noop),
    (r'.*std::operator<< <', noop),
    (r'std::allocator<', noop), (r'std::__new_allocator<', noop),
    (r'std::.*allocator<.*>::~?allocator\(', noop),
    (r'std::(pow|log10|log|fabs|abs|exp)\((float|double)', None),
]


def _stdmath(eng, st, args, info):
    m = re.match(r'std::(\w+)\(', info['dem'])
    return CFUN[m.group(1)](eng, st, args, info)


RULES[-1] = (RULES[-1][0], _stdmath)
RULES.append((r'(?:float|double|.*)\bstd::pow<', pure_real('pow', 2)))
RULES.append((r'.*__gnu_cxx::__promote.*std::pow<', pure_real('pow', 2)))
