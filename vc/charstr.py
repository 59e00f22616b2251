"""std::string as a sequence of characters (for the string helpers).

A string object is a vector of characters: a size cell and a content array; the
terminating NUL is written by c_str().  Installed by a contract module that needs
contents (install(eng)); elsewhere strmap's identity abstraction is used."""
import z3
from sym import Ptr, I, Unsupported
from stl import TyDesc, SZ, velem, get_size, set_size, ret, whole, set_whole, MAXSZ
import strmap

DESC = TyDesc(32, [((0, SZ, 0), I), ((0, ('V', 1), 0), I)])
CH = (('V', 1), 0)
SORT = I
ISIN = z3.Function('in_set', I, I, z3.BoolSort())      # set (a C string), character -> member


def content(eng, st, p):
    return whole(eng, st, p, CH, SORT)[1]


def set_content(eng, st, p, arr):
    set_whole(eng, st, p, whole(eng, st, p, CH, SORT)[0], SORT, arr)


def setid(eng, p):
    """identity of the character set a const char* argument denotes"""
    if not isinstance(p, Ptr):
        raise Unsupported('character set')
    ids = eng.__dict__.setdefault('charsets', {})
    return z3.IntVal(ids.setdefault((p.region, p.path, str(p.idx)), len(ids)))


def shifted(eng, st, arr, by):
    na = eng.fresh('substr', arr.sort())
    j = z3.Int('j?%s' % na.decl().name())
    st.assume(z3.ForAll([j], z3.Select(na, j) == z3.Select(arr, j + by), patterns=[z3.Select(na, j)]))
    return na


def minz(a, b):
    return z3.If(a < b, a, b)


def length(eng, st, args, info):
    return ret(st, get_size(eng, st, args[0]))


def empty(eng, st, args, info):
    return ret(st, get_size(eng, st, args[0]) == 0)


def index(eng, st, args, info):
    n, i = get_size(eng, st, args[0]), args[1]
    eng.oblige(st, 'bounds', 'character within the string (line %s)' % eng.line(info['ins']), z3.And(i >= 0, i < n))
    st.assume(z3.And(i >= 0, i < n))
    return ret(st, velem(args[0], 1, i))


def resize(eng, st, args, info):
    st = st.copy()
    n, k = get_size(eng, st, args[0]), args[1]
    if len(args) != 2:
        raise Unsupported('resize with a character')
    arr = content(eng, st, args[0])
    na = eng.fresh('resized', arr.sort())
    j = z3.Int('j?%s' % na.decl().name())
    st.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(j < n, z3.Select(arr, j), z3.IntVal(0)), patterns=[z3.Select(na, j)]))
    eng.oblige(st, 'bounds', 'size given to resize (line %s)' % eng.line(info['ins']), z3.And(k >= 0, k <= MAXSZ))
    set_content(eng, st, args[0], na)
    set_size(eng, st, args[0], k)
    return ret(st)


def erase(eng, st, args, info):
    st = st.copy()
    p = args[0]
    n = get_size(eng, st, p)
    if len(args) == 1:
        set_size(eng, st, p, z3.IntVal(0))
        return ret(st, p)
    pos = args[1]
    if any(isinstance(a, Ptr) for a in args[1:]):
        raise Unsupported('erase of an iterator range')
    k = n - pos
    if len(args) > 2 and not (z3.is_int_value(args[2]) and (args[2].as_long() < 0 or args[2].as_long() >= 2 ** 62)):
        k = minz(args[2], n - pos)
        eng.oblige(st, 'bounds', 'count given to erase (line %s)' % eng.line(info['ins']), args[2] >= 0)
    # a position beyond the end throws std::out_of_range
    bad = z3.Or(pos < 0, pos > n)
    outs = throwing(eng, st, bad, 'std::out_of_range')
    st.assume(z3.Not(bad))
    arr = content(eng, st, p)
    na = eng.fresh('erased', arr.sort())
    j = z3.Int('j?%s' % na.decl().name())
    st.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(j < pos, z3.Select(arr, j), z3.Select(arr, j + k)),
                        patterns=[z3.Select(na, j)]))
    set_content(eng, st, p, na)
    set_size(eng, st, p, n - k)
    return ret(st, p) + outs


def throwing(eng, st, cond, what):
    s2 = st.copy()
    s2.assume(cond)
    return [('throw', s2, what)] if eng.quick(s2.pc) else []


def substr(eng, st, args, info):
    """args: result object, string, position, count"""
    st = st.copy()
    dst, p, pos = args[:3]
    n = get_size(eng, st, p)
    bad = z3.Or(pos < 0, pos > n)
    outs = throwing(eng, st, bad, 'std::out_of_range')
    st.assume(z3.Not(bad))
    k = n - pos
    if len(args) > 3 and not (z3.is_int_value(args[3]) and (args[3].as_long() < 0 or args[3].as_long() >= 2 ** 62)):
        # a negative count is a huge one
        k = z3.If(args[3] < 0, k, minz(args[3], k))
    set_content(eng, st, dst, shifted(eng, st, content(eng, st, p), pos))
    set_size(eng, st, dst, k)
    return ret(st) + outs


def ctor(eng, st, args, info):
    st = st.copy()
    if len(args) == 1:
        set_size(eng, st, args[0], z3.IntVal(0))
        return ret(st)
    if len(args) == 2 and 'char const*' not in info['dem'].split('basic_string(')[-1]:
        n = get_size(eng, st, args[1])
        set_content(eng, st, args[0], content(eng, st, args[1]))
        set_size(eng, st, args[0], n)
        return ret(st)
    raise Unsupported('string from ' + info['dem'])


def push(eng, st, args, info):
    st = st.copy()
    p = args[0]
    n = get_size(eng, st, p)
    set_content(eng, st, p, z3.Store(content(eng, st, p), n, args[1]))
    set_size(eng, st, p, n + 1)
    return ret(st)


def assign(eng, st, args, info):
    st = st.copy()
    n = get_size(eng, st, args[1])
    set_content(eng, st, args[0], content(eng, st, args[1]))
    set_size(eng, st, args[0], n)
    return ret(st, args[0])


def c_str(eng, st, args, info):
    """the characters and a NUL, as a read-only copy"""
    st = st.copy()
    n = get_size(eng, st, args[0])
    p = velem(Ptr('#cstr%d' % next(eng.fresh_n)), 1, z3.IntVal(0))
    st.cells[(p.region, p.path)] = z3.Store(content(eng, st, args[0]), n, z3.IntVal(0))
    return ret(st, p)


def nothing(eng, st, args, info):
    return ret(st)


def strchr(eng, st, args, info):
    eng.assumed.add('strchr')
    k = setid(eng, args[0])
    found = ISIN(k, args[1])
    # strchr also finds the terminating NUL
    st.assume(ISIN(k, 0))
    p = Ptr('#strchr')
    p.null = z3.Not(found)
    return ret(st, p)


S = r'(?:[\w:& *<>]*? )?std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'
RULES = [
    (S + r'(length|size)\(', length), (S + r'empty\(', empty), (S + r'(operator\[\]|at)\(', index), (S + r'resize\(', resize),
    (S + r'erase\(', erase), (S + r'substr\(', substr), (S + r'basic_string\(', ctor), (S + r'~basic_string\(', nothing),
    (S + r'(c_str|data)\(', c_str), (S + r'push_back\(', push), (S + r'reserve\(', nothing), (S + r'clear\(', erase),
    (S + r'operator=\(std::__cxx11', assign), (r'strchr', strchr),
]


def install(eng):
    strmap.STRDESC = DESC
    eng.stl.rules[:0] = RULES


def equal(eng, st, args, info):
    """operator== / != of two strings"""
    eng.assumed.add('std::string operator==')
    st = st.copy()
    a, b = args[:2]
    n, m = get_size(eng, st, a), get_size(eng, st, b)
    x, y = content(eng, st, a), content(eng, st, b)
    r = eng.fresh('streq', z3.BoolSort())
    j, w = z3.Int('j?%s' % r.decl().name()), eng.fresh('differ')
    st.assume(z3.Implies(r, z3.And(n == m, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(x, j) == z3.Select(y, j)),
                                                      patterns=[z3.Select(x, j), z3.Select(y, j)]))))
    st.assume(z3.Implies(z3.And(z3.Not(r), n == m), z3.And(0 <= w, w < n, z3.Select(x, w) != z3.Select(y, w))))
    return ret(st, z3.Not(r) if 'operator!=' in info['dem'] else r)


RULES.append((r'bool std::operator[=!]=<char, std::char_traits<char>, std::allocator<char>>\(std::__cxx11::basic_string<[^()]*const&, std::__cxx11', equal))
