"""Assumed contracts of std::string and std::map (the trusted base).

A string value is abstracted to an integer identity: two strings have the same
identity exactly when they have the same content.  A map is the presence flag
and the mapped value of every key (the identity, for string keys)."""
import re
import z3
import stl
from sym import Ptr, FnPtr, Opaque, PtrInt, I, R, nsel, nstore
from stl import ret, join, TyDesc, get_size, set_size, copy_val, targ, after_class, zero_of
from ir import Unsupported

STRT = 'std::__cxx11::basic_string<char'
END = -1


def strlit(eng, s):
    """identity of a literal: distinct literals are distinct strings"""
    t = eng.__dict__.setdefault('_lits', {'': 0})
    if s not in t:
        t[s] = -10 - len(t)
    return z3.IntVal(t[s])


def cstring(mod, name):
    g = mod.globals.get(name)
    if not g:
        return None
    m = re.search(r'constant \[\d+ x i8\] (c"(.*?)\\00"|zeroinitializer)', g)
    if not m:
        return None
    s = m.group(2) or ''
    return re.sub(r'\\(\\|[0-9A-Fa-f]{2})', lambda x: '\\' if x.group(1) == '\\' else chr(int(x.group(1), 16)), s)


def cid(eng, st, p):
    """identity of the C string at p"""
    if isinstance(p, Ptr) and p.region:
        if p.region.startswith('@') and p.path == (0,):
            s = cstring(eng.mod, p.region[1:])
            if s is not None:
                return strlit(eng, s)
        if 'STRC' in p.path:
            i = p.path.index('STRC')
            if p.path[i:] != ('STRC', 0):
                raise Unsupported('pointer into a string')
            return sidp(eng, st, Ptr(p.region, p.path[:i], p.idx))
        if not p.region.startswith('@'):
            q = Ptr(p.region, p.path + ('CSTR', 0), p.idx)
            return nsel(eng.cell(st, q.region, q.path, I), q.idx)
    raise Unsupported('C string at %r' % (p,))


def sidp(eng, st, p):
    """identity of the std::string at p"""
    path = join(p, (0, 'STR', 0))
    return nsel(eng.cell(st, p.region, path, I), p.idx)


def setsid(eng, st, p, v):
    path = join(p, (0, 'STR', 0))
    k = (p.region, path)
    eng.note_write(k)
    st.cells[k] = nstore(eng.cell(st, k[0], k[1], I), p.idx, v)


def slen(eng, v):
    return eng.ufn('strlen', I, I)(v)


STRDESC = TyDesc(32, [((0, 'STR', 0), I)])


def asid(eng, st, v, sig):
    """identity of an argument that is a string reference or a C string"""
    return cid(eng, st, v) if 'char const*' in sig and 'basic_string' not in sig else sidp(eng, st, v)


def Str(dem):
    base = dem[dem.index(STRT):]
    rest = after_class(base, 'basic_string')[2:]
    m = re.match(r'(operator\[\]|operator=|operator\+=|~?\w+)', rest)
    meth = m.group(1)
    sig = rest[len(meth):]

    def h(eng, st, args, info):
        eng.assumed.add('std::string::%s' % meth)
        p = args[0]
        if meth == 'basic_string':
            st = st.copy()
            a = sig[sig.index('(') + 1:] if '(' in sig else ''
            if len(args) == 1:
                setsid(eng, st, p, strlit(eng, ''))
                return ret(st)
            if a.startswith('char const*') and not re.match(r'char const\*, unsigned', a):
                setsid(eng, st, p, cid(eng, st, args[1]))
                return ret(st)
            if a.startswith(STRT) and len(args) == 2:
                setsid(eng, st, p, sidp(eng, st, args[1]))
                return ret(st)
            raise Unsupported('std::string constructor ' + sig)
        if meth == '~basic_string' or meth == 'reserve':
            return ret(st)
        if meth == 'operator=' or meth == 'assign':
            if len(args) != 2:
                raise Unsupported('std::string::' + meth)
            st = st.copy()
            a = sig[sig.index('(') + 1:]
            if a.startswith('char const*'):
                setsid(eng, st, p, cid(eng, st, args[1]))
            elif a.startswith(STRT):
                setsid(eng, st, p, sidp(eng, st, args[1]))
            else:
                raise Unsupported('std::string::operator= ' + sig)
            return ret(st, p)
        if meth in ('c_str', 'data'):
            return ret(st, Ptr(p.region, p.path + ('STRC', 0), p.idx))
        if meth in ('size', 'length', 'empty'):
            v = sidp(eng, st, p)
            n = slen(eng, v)
            st.assume(z3.And(n >= 0, n <= stl.MAXSZ, (n == 0) == (v == strlit(eng, ''))))
            return ret(st, n == 0 if meth == 'empty' else n)
        if meth == 'compare' and len(args) == 2:
            a, b = sidp(eng, st, p), asid(eng, st, args[1], sig)
            f = eng.ufn('strcmp', I, I, I)
            st.assume((f(a, b) == 0) == (a == b))
            return ret(st, f(a, b))
        if meth == 'clear':
            st = st.copy()
            setsid(eng, st, p, strlit(eng, ''))
            return ret(st)
        raise Unsupported('std::string::' + meth)
    return h


def strcompare(eng, st, args, info):
    dem = info['dem']
    m = re.search(r'operator(==|!=)<char', dem)
    if not m:
        raise Unsupported(dem)
    sig = dem[dem.index('('):]
    parts = split_args(sig)
    a = asid(eng, st, args[0], parts[0])
    b = asid(eng, st, args[1], parts[1])
    eng.assumed.add('std::string operator' + m.group(1))
    return ret(st, a == b if m.group(1) == '==' else a != b)


def split_args(sig):
    sig = sig.strip()[1:]
    d, cur, out = 0, '', []
    for ch in sig:
        if ch == ')' and d == 0:
            break
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


# ------------------------------------------------------------------ maps
def targs(dem, name):
    i = dem.index(name + '<') + len(name)
    d, out, cur = 0, [], ''
    for ch in dem[i:]:
        if ch in '<(':
            d += 1
            if d == 1:
                continue
        elif ch in '>)':
            d -= 1
            if d == 0:
                out.append(cur.strip())
                return out
        if ch == ',' and d == 1:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    raise Unsupported(dem)


class MapT:
    def __init__(self, eng, key, val):
        self.kd, self.vd = stl.tydesc(eng, key), stl.tydesc(eng, val)
        if len(self.kd.leaves) != 1 or self.kd.leaves[0][1] != I:
            raise Unsupported('map key ' + key)
        al = min(8, max(1, self.vd.size))
        al = 8 if 'basic_string' in key or 'vector' in val else al
        self.voff = (self.kd.size + min(al, 8) - 1) // min(al, 8) * min(al, 8)
        kal = 8 if 'basic_string' in key else self.kd.size
        al = max(kal, min(al, 8))
        self.size = (self.voff + self.vd.size + al - 1) // al * al

    def node(self, p, k):
        return p.newstep(self.size, k, 'M')

    def flag(self, p, k):
        return p.newstep(1, k, 'MH')

    def leaves(self):
        out = [((0, 'SZ', 0), I), ((0, ('MH', 1), 0), I)]
        for suf, s in self.vd.leaves:
            out.append(((0, ('M', self.size)) + (self.voff + suf[0],) + suf[1:], s))
        return out

    def has(self, eng, st, p, k):
        q = self.flag(p, k)
        return nsel(eng.cell(st, q.region, q.path, I), q.idx) != 0

    def keyid(self, eng, st, a):
        suf = self.kd.leaves[0][0]
        return nsel(eng.cell(st, a.region, join(a, suf), I), a.idx)


def mapdesc(eng, t):
    k, v = targs(t, 'map')[:2]
    return TyDesc(48, MapT(eng, k, v).leaves())


def Map(dem):
    base = dem[dem.index('std::map<'):]
    rest = after_class(base, 'map')[2:]
    key, val = targs(base, 'map')[:2]
    m = re.match(r'(operator\[\]|operator=|~?\w+)', rest)
    meth = m.group(1)
    sig = rest[len(meth):]

    def h(eng, st, args, info):
        eng.assumed.add('std::map::%s' % meth)
        p = args[0]
        T = MapT(eng, key, val)
        if meth == 'size':
            return ret(st, get_size(eng, st, p))
        if meth == 'empty':
            return ret(st, get_size(eng, st, p) == 0)
        if meth == 'end':
            return ret(st, T.node(p, z3.IntVal(END)))
        if meth in ('find', 'count', 'at'):
            k = T.keyid(eng, st, args[1])
            b = T.has(eng, st, p, k)
            st.assume(k != END)
            if meth == 'count':
                return ret(st, z3.If(b, z3.IntVal(1), z3.IntVal(0)))
            if meth == 'at':
                s2 = st.copy()
                s2.assume(z3.Not(b))
                st.assume(b)
                return [('ret', st, T.node(p, k).off(T.voff)), ('throw', s2, 'map::at')]
            st = keyat(eng, st, T, p, k)
            return ret(st, T.node(p, z3.If(b, k, z3.IntVal(END))))
        if meth == 'operator[]':
            k = T.keyid(eng, st, args[1])
            st = keyat(eng, st, T, p, k)
            b = T.has(eng, st, p, k)
            n = get_size(eng, st, p)
            q = T.flag(p, k)
            eng.note_write((q.region, q.path))
            c = eng.cell(st, q.region, q.path, I)
            st.cells[(q.region, q.path)] = nstore(c, q.idx, z3.IntVal(1))
            set_size(eng, st, p, z3.If(b, n, n + 1))
            v = T.node(p, k).off(T.voff)
            for suf, s in T.vd.leaves:
                path = join(v, suf)
                eng.note_write((v.region, path))
                a = eng.cell(st, v.region, path, s)
                o = nsel(a, v.idx)
                st.cells[(v.region, path)] = nstore(a, v.idx, z3.If(b, o, zero_of(o.sort())))
            return ret(st, v)
        if meth == 'clear' or (meth == 'map' and len(args) == 1):
            st = st.copy()
            set_size(eng, st, p, z3.IntVal(0))
            path = join(p, (0, ('MH', 1), 0))
            k = (p.region, path)
            eng.note_write(k)
            a = eng.cell(st, p.region, path, I)
            st.cells[k] = nstore(a, p.idx, zero_of(nsel(a, p.idx).sort()))
            return ret(st)
        if meth == 'operator=' or (meth == 'map' and len(args) == 2 and 'std::map<' in sig):
            st = st.copy()
            copy_val(eng, st, args[1], p, mapdesc(eng, base))
            return ret(st, p if meth == 'operator=' else None)
        if meth == '~map':
            return ret(st)
        raise Unsupported('std::map::' + meth)

    def keyat(eng, st, T, p, k):
        """the key stored in the node of key k is k"""
        st = st.copy()
        nd = T.node(p, k)
        suf = T.kd.leaves[0][0]
        st.assume(z3.Implies(T.has(eng, st, p, k),
                             nsel(eng.cell(st, nd.region, join(nd, suf), I), nd.idx) == k))
        return st
    return h


def rbiter(eng, st, args, info):
    """operator-> / operator* of a map iterator: the node (not past the end)"""
    q = eng.load(st, args[0], ('ptr',))
    if not isinstance(q, Ptr):
        raise Unsupported('map iterator')
    eng.oblige(st, 'bounds', 'iterator is not past the end (line %s)' % eng.line(info['ins']), q.idx[-1] != END)
    st.assume(q.idx[-1] != END)
    return ret(st, q)


# ------------------------------------------------------------ C strings
def strcmp_(eng, st, args, info):
    a, b = cid(eng, st, args[0]), cid(eng, st, args[1])
    f = eng.ufn('strcmp', I, I, I)
    eng.assumed.add('strcmp')
    st.assume((f(a, b) == 0) == (a == b))
    return ret(st, f(a, b))


def strncmp_(eng, st, args, info):
    a, b = cid(eng, st, args[0]), cid(eng, st, args[1])
    eng.assumed.add('strncmp')
    f = eng.ufn('strncmp', I, I, I, I)
    if z3.is_int_value(a) and not z3.is_int_value(b):
        return ret(st, f(b, a, args[2]))     # compared with 0 only
    return ret(st, f(a, b, args[2]))


def strlen_(eng, st, args, info):
    a = cid(eng, st, args[0])
    eng.assumed.add('strlen')
    n = slen(eng, a)
    st.assume(z3.And(n >= 0, n <= stl.MAXSZ, (n == 0) == (a == strlit(eng, ''))))
    return ret(st, n)


def find(name, dem):
    if name in ('strcmp', 'strncmp', 'strlen'):
        return {'strcmp': strcmp_, 'strncmp': strncmp_, 'strlen': strlen_}[name]
    d = dem.split('(')[0] if not dem.startswith('(') else dem
    if re.match(r'(bool )?std::operator(==|!=)<char, std::char_traits<char>', dem):
        return strcompare
    if re.match(r'(bool )?std::operator[=!]=\(std::_Rb_tree', dem):
        return None
    m = re.search(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::', dem)
    if m and m.start() == dem.find('std::') and not re.match(r'std::(vector|deque|map)', dem[dem.find('std::'):]):
        return Str(dem)
    if dem.startswith('std::map<') or re.match(r'[\w:& ]*? ?std::map<', d):
        if re.match(r'::', after_class(dem[dem.index('std::map<'):], 'map')):
            return Map(dem)
    if re.match(r'std::_Rb_tree_(const_)?iterator<.*>::operator(->|\*)\(\)', dem):
        return rbiter
    return None
