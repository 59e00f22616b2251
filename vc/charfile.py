"""A text file read by fgets: characters FC[0, FLEN), position in a ghost cell.

A read error is a file whose reading stops at FLEN with ferror set (FERR)."""
import z3
from sym import Ptr, I, Unsupported
from stl import nsel, nstore, get_size, set_size, ret
import charstr

FC = z3.Array('FILE_TEXT', I, I)
FLEN = z3.Int('FILE_LENGTH')
FERR = z3.Bool('FILE_ERROR')
POS = ('#file', ('POS', 0))
HIT = ('#file', ('HIT', 0))        # the end was met
EOL = z3.Function('line_end_from', I, I)


def pos(c):
    return c.eng.cell(c.st, POS[0], POS[1], I)


def hit(c):
    return c.eng.cell(c.st, HIT[0], HIT[1], I)


def arrayof(p):
    """the array p points into and the index"""
    if isinstance(p, Ptr) and p.idx and p.path and p.path[-1] == 0 and isinstance(p.path[-2], tuple):
        return (p.region, p.path), p.idx
    if isinstance(p, Ptr):
        q = p.newstep(1, z3.IntVal(0))
        return (q.region, q.path), q.idx
    raise Unsupported('buffer')


def nulkey(k):
    return ('#nul', (k[0],) + tuple(str(x) for x in k[1]))


def room(eng, p):
    t = eng.alloca_t.get(p.region) if isinstance(p, Ptr) and len(p.path) == 3 else None
    if t is None or t[0] != 'arr':
        raise Unsupported('size of the buffer')
    return t[1]


def r_fgets(eng, st, args, info):
    """up to n - 1 characters, through the next line end, and a NUL"""
    eng.assumed.add('fgets, ferror: deliver the characters of the file in order')
    k, idx = arrayof(args[0])
    n, b = args[1], idx[-1]
    eng.oblige(st, 'bounds', 'the buffer holds what fgets may write (line %s)' % eng.line(info['ins']),
               z3.And(b >= 0, n >= 2, b + n <= room(eng, args[0])))
    p = eng.cell(st, POS[0], POS[1], I)
    a, e = st.copy(), st.copy()
    a.assume(p < FLEN)
    e.assume(p >= FLEN)
    m = eng.fresh('got', I)
    q = EOL(p)                       # past the line end, or the end of the file
    a.assume(z3.And(m >= 1, m == z3.If(q - p < n - 1, q - p, n - 1)))
    arr = eng.cell(a, k[0], k[1], I)
    na = eng.fresh('read', nsel(arr, idx[:-1]).sort())
    j = z3.Int('j?' + na.decl().name())
    a.assume(z3.ForAll([j], z3.Implies(z3.And(b <= j, j < b + m), z3.Select(na, j) == z3.Select(FC, p + j - b)), patterns=[z3.Select(na, j)]))
    a.assume(z3.Select(na, b + m) == 0)
    eng.note_write(k)
    a.cells[k] = nstore(arr, idx[:-1], na)
    eng.note_write(nulkey(k))
    a.cells[nulkey(k)] = b + m
    for s, h in ((a, z3.If(z3.And(p + m == FLEN, m < n - 1, z3.Select(FC, FLEN - 1) != 10), z3.IntVal(1), eng.cell(st, HIT[0], HIT[1], I))),
                 (e, z3.IntVal(1))):
        eng.note_write(HIT)
        s.cells[HIT] = h
    eng.note_write(POS)
    a.cells[POS] = p + m
    return [('ret', s, v) for s, v in ((a, args[0]), (e, Ptr(None))) if eng.quick(s.pc)]


def r_fread(eng, st, args, info):
    """as many of the bytes asked for as there are"""
    eng.assumed.add('fread')
    st = st.copy()
    k, idx = arrayof(args[0])
    b, size, count = idx[-1], args[1], args[2]
    total = z3.simplify(size * count)
    eng.oblige(st, 'bounds', 'the buffer holds what fread may write (line %s)' % eng.line(info['ins']),
               z3.And(b >= 0, size >= 0, count >= 0, b + total <= room(eng, args[0])))
    p = eng.cell(st, POS[0], POS[1], I)
    got = z3.If(FLEN - p < total, FLEN - p, total)
    arr = eng.cell(st, k[0], k[1], I)
    na = eng.fresh('read', nsel(arr, idx[:-1]).sort())
    j = z3.Int('j?' + na.decl().name())
    st.assume(z3.ForAll([j], z3.Implies(z3.And(b <= j, j < b + got), z3.Select(na, j) == z3.Select(FC, p + j - b)), patterns=[z3.Select(na, j)]))
    eng.note_write(k)
    st.cells[k] = nstore(arr, idx[:-1], na)
    eng.note_write(nulkey(k))
    st.cells.pop(nulkey(k), None)
    eng.note_write(HIT)
    st.cells[HIT] = z3.If(FLEN - p < total, z3.IntVal(1), eng.cell(st, HIT[0], HIT[1], I))
    eng.note_write(POS)
    st.cells[POS] = p + got
    part = eng.fresh('items', I)
    st.assume(z3.And(0 <= part, part < count))
    if z3.is_int_value(z3.simplify(size)) and z3.simplify(size).as_long() == 1:
        return ret(st, got)
    return ret(st, z3.If(got == total, count, part))


def r_ferror(eng, st, args, info):
    h = eng.cell(st, HIT[0], HIT[1], I)
    return ret(st, z3.If(z3.And(FERR, h == 1), z3.IntVal(1), z3.IntVal(0)))


def cstr_len(eng, st, p, what):
    """strlen of a buffer: the first NUL, which must exist"""
    k, idx = arrayof(p)
    b = idx[-1]
    w = eng.cell(st, *nulkey(k), I)
    a = nsel(eng.cell(st, k[0], k[1], I), idx[:-1])
    eng.oblige(st, 'bounds', what, z3.And(w >= b, z3.Select(a, w) == 0))
    m = eng.fresh('strlen', I)
    j = z3.Int('j?' + m.decl().name())
    st.assume(z3.And(m >= 0, b + m <= w, z3.Select(a, b + m) == 0,
                     z3.ForAll([j], z3.Implies(z3.And(b <= j, j < b + m), z3.Select(a, j) != 0), patterns=[z3.Select(a, j)])))
    return a, b, m


def r_strlen(eng, st, args, info):
    eng.assumed.add('strlen')
    st = st.copy()
    return ret(st, cstr_len(eng, st, args[0], 'a terminated string is measured (line %s)' % eng.line(info['ins']))[2])


def r_append(eng, st, args, info):
    """append(char const*)"""
    st = st.copy()
    if len(args) > 2:
        (k, idx), m = arrayof(args[1]), args[2]
        a, b = nsel(eng.cell(st, k[0], k[1], I), idx[:-1]), idx[-1]
        eng.oblige(st, 'bounds', 'the characters appended are there (line %s)' % eng.line(info['ins']),
                   z3.And(b >= 0, m >= 0, b + m <= room(eng, args[1])))
    else:
        a, b, m = cstr_len(eng, st, args[1], 'a terminated string is appended (line %s)' % eng.line(info['ins']))
    n = get_size(eng, st, args[0])
    arr = charstr.content(eng, st, args[0])
    na = eng.fresh('appended', arr.sort())
    j = z3.Int('j?%s' % na.decl().name())
    st.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(j < n, z3.Select(arr, j), z3.Select(a, b + j - n)), patterns=[z3.Select(na, j)]))
    charstr.set_content(eng, st, args[0], na)
    set_size(eng, st, args[0], n + m)
    return ret(st, args[0])


RULES = [(r'^fgets$', r_fgets), (r'^ferror$', r_ferror), (r'^strlen$', r_strlen), (r'^fread$', r_fread),
         (charstr.S + r'(append|operator\+=)\(char const\*', r_append)]
