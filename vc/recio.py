"""Assumed contracts of the C stream functions.

An output stream is the sequence of the items written to it (region #out, POS items so far): pieces of text,
line ends, spaces, integers, reals, and a block of bytes.  An input stream delivers items in order (region
#in).  The items printed by a format are those its conversions name; a number read back by the matching
conversion is the number printed (reals: up to the printed precision)."""
import re
import z3
import strmap, stl
from sym import Ptr, I, R, nsel
from stl import ret
from ir import Unsupported

NL, SP, STR, INT, REAL, BLOCK = 1, 2, 3, 4, 5, 6
OUT, IN = '#out', '#in'
ATOI = z3.Function('atoi', I, I)


class Log:
    """items of the output stream in a state"""

    def __init__(self, c, region=OUT):
        self.e, self.st, self.r = c.eng, c.st, region

    def f(self, name, i, sort=I):
        return z3.Select(self.e.cell(self.st, self.r, (('I', 1), name), sort), i)

    pos = property(lambda s: s.e.cell(s.st, s.r, ('POS', 0), I))

    def kind(self, i):
        return self.f('K', i)

    def a(self, i):
        return self.f('A', i)

    def x(self, i):
        return self.f('X', i, R)

    def is_(self, i, k, v=None):
        r = [self.kind(i) == k]
        if v is not None:
            r.append((self.x(i) if k == REAL else self.a(i)) == v)
        return z3.And(*r)

    def text(self, i, s):
        return self.is_(i, STR, strmap.strlit(self.e, s))


class Inp(Log):
    """items of the input stream (never changes but for the position)"""
    FN = {'K': z3.Function('in_kind', I, I), 'A': z3.Function('in_value', I, I), 'X': z3.Function('in_real', I, R)}

    def __init__(self, c):
        Log.__init__(self, c, IN)

    def f(self, name, i, sort=I):
        return self.FN[name](i)


OUTPOS, INPOS = Ptr(OUT, ('POS', 0)), Ptr(IN, ('POS', 0))
ALLOUT = Ptr(OUT, ())


def emit(eng, st, k, v):
    p = eng.cell(st, OUT, ('POS', 0), I)
    cells = [('K', z3.IntVal(k))] + [('X', v) if k == REAL else ('A', v)]
    for nm, val in cells:
        key = (OUT, (('I', 1), nm))
        a = eng.cell(st, OUT, key[1], R if nm == 'X' else I)
        eng.note_write(key)
        st.cells[key] = z3.Store(a, p, val)
    eng.note_write((OUT, ('POS', 0)))
    st.cells[(OUT, ('POS', 0))] = p + 1


def pieces(s):
    return re.findall(r'\n|[ ]|[^\n ]+', s)


def emit_text(eng, st, s):
    for t in pieces(s):
        if t == '\n':
            emit(eng, st, NL, z3.IntVal(0))
        elif t == ' ':
            emit(eng, st, SP, z3.IntVal(0))
        else:
            emit(eng, st, STR, strmap.strlit(eng, t))


def literal(eng, p):
    if isinstance(p, Ptr) and p.region and p.region.startswith('@') and p.path == (0,):
        return strmap.cstring(eng.mod, p.region[1:])
    return None


def std(eng, st, p):
    """stderr / stdout"""
    return isinstance(p, Ptr) and p.region and ('stderr' in p.region or 'stdout' in p.region) or \
        not isinstance(p, Ptr) and 'stderr' in repr(p)


def r_fprintf(eng, st, args, info):
    if std(eng, st, args[0]):
        return stl.noop(eng, st, args, info)
    fmt = literal(eng, args[1])
    if fmt is None:
        raise Unsupported('format of fprintf')
    eng.assumed.add('fprintf')
    st = st.copy()
    rest = list(args[2:])
    for t in re.split(r'(%[-+0-9.]*l?l?[a-z%])', fmt):
        if t == '%%' or not t.startswith('%'):
            emit_text(eng, st, t.replace('%%', '%'))
            continue
        v = rest.pop(0)
        if t[-1] in 'du':
            emit(eng, st, INT, v)
        elif t[-1] in 'gfe':
            emit(eng, st, REAL, v)
        elif t[-1] == 's':
            s = literal(eng, v)
            if s is not None:
                emit_text(eng, st, s)
            else:
                emit(eng, st, STR, strmap.cid(eng, st, v))
        else:
            raise Unsupported('conversion ' + t)
    return ret(st, eng.fresh('printed', I))


def r_fputs(eng, st, args, info):
    if std(eng, st, args[1]):
        return stl.noop(eng, st, args, info)
    eng.assumed.add('fputs')
    st = st.copy()
    s = literal(eng, args[0])
    if s is not None:
        emit_text(eng, st, s)
    else:
        emit(eng, st, STR, strmap.cid(eng, st, args[0]))
    return ret(st, z3.IntVal(1))


def r_fputc(eng, st, args, info):
    c = args[0]
    if std(eng, st, args[1]):
        return stl.noop(eng, st, args, info)
    if not z3.is_int_value(c):
        raise Unsupported('fputc')
    st = st.copy()
    emit_text(eng, st, chr(c.as_long()))
    return ret(st, c)


# ------------------------------------------------------------------ input
LINE = z3.Function('line_at', I, I)           # text of the line that starts at an item
LOK = z3.Function('line_available', I, z3.BoolSort())
RAW = z3.Function('text_at', I, I, I)         # text of a given length
ROK = z3.Function('text_available', I, I, z3.BoolSort())
NUM = z3.Function('number_at', I, I)
SCANS = z3.Function('numbers_available', I, I, z3.BoolSort())   # that many numbers, separated by spaces
BOK = z3.Function('block_available', I, I, z3.BoolSort())


def setpos(eng, st, p):
    eng.note_write((IN, ('POS', 0)))
    st.cells[(IN, ('POS', 0))] = p


def faithful(i):
    """what the reading functions deliver for the items of the stream"""
    q = lambda f: f
    return q


def r_read_line(eng, st, args, info):
    p = eng.cell(st, IN, ('POS', 0), I)
    eng.assumed.add('str::read_line: delivers the line at the position')
    st = st.copy()
    strmap.setsid(eng, st, args[0], LINE(p))
    setpos(eng, st, p + 2)
    return ret(st, LOK(p))


def r_read_string(eng, st, args, info):
    p = eng.cell(st, IN, ('POS', 0), I)
    eng.assumed.add('str::read_string: delivers the text at the position')
    st = st.copy()
    strmap.setsid(eng, st, args[0], RAW(p, args[1]))
    setpos(eng, st, p + 1)
    return ret(st, ROK(p, args[1]))


def r_fscanf(eng, st, args, info):
    fmt = literal(eng, args[1])
    if fmt is None or not re.fullmatch(r'%l?d( %l?d)*\n', fmt):
        raise Unsupported('fscanf')
    eng.assumed.add('fscanf of numbers')
    p = eng.cell(st, IN, ('POS', 0), I)
    n = fmt.count('%')
    a, b = st.copy(), st.copy()
    a.assume(SCANS(p, n))
    b.assume(z3.Not(SCANS(p, n)))
    for i in range(n):
        q = args[2 + i]
        eng.store(a, q, NUM(p + 2 * i), ('i', 32))
        eng.store(b, q, eng.fresh('junk', I), ('i', 32))
    setpos(eng, a, p + 2 * n)
    setpos(eng, b, eng.fresh('pos', I))
    got = eng.fresh('converted', I)
    b.assume(got < n)
    return [('ret', a, z3.IntVal(n)), ('ret', b, got)]


def r_atoi(eng, st, args, info):
    eng.assumed.add('atoi')
    v = ATOI(strmap.cid(eng, st, args[0]))
    st.assume(z3.And(v >= -2 ** 31, v < 2 ** 31))
    return ret(st, v)


def blockfn(suf, s):
    return z3.Function('block_%s' % suf, I, I, s)


def elemof(p):
    """element type cells of a pointer to the first element of a vector"""
    k = max((i for i, e in enumerate(p.path) if isinstance(e, tuple)), default=None)
    if k is None or p.path[k + 1:] not in ((), (0,)):
        raise Unsupported('block at %r' % (p,))
    return p.path[:k + 1], p.idx


def r_fread(eng, st, args, info):
    """fread(vector data, bytes, 1): all or nothing"""
    p = eng.cell(st, IN, ('POS', 0), I)
    eng.assumed.add('fread')
    pre, idx = elemof(args[0])
    sz = pre[-1][1]
    n = args[1] * args[2]
    vec = Ptr(args[0].region, pre[:-1], idx[:-1])
    eng.oblige(st, 'bounds', 'the block fits (line %s)' % eng.line(info['ins']),
               z3.And(idx[-1] == 0, n <= sz * stl.get_size(eng, st, Ptr(vec.region, vec.path[:-1] if vec.path[-1:] == (0,) and False else vec.path, vec.idx))))
    a, b = st.copy(), st.copy()
    a.assume(BOK(p, n))
    b.assume(z3.Not(BOK(p, n)))
    leaves = [k for k in eng.blockleaves]
    for s2 in (a, b):
        for suf, s in leaves:
            path = pre + (suf,)
            arr = eng.cell(s2, vec.region, path, s)
            eng.note_write((vec.region, path))
            na = eng.fresh('block', nsel(arr, idx[:-1]).sort())
            s2.cells[(vec.region, path)] = stl.nstore(arr, idx[:-1], na)
            if s2 is a:
                j = z3.Int('j?' + na.decl().name())
                s2.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, sz * j < n), z3.Select(na, j) == blockfn(suf, s)(p, j)),
                                    patterns=[z3.Select(na, j)]))
    setpos(eng, a, p + 1)
    setpos(eng, b, eng.fresh('pos', I))
    return [('ret', a, args[2]), ('ret', b, z3.IntVal(0))]


def r_fwrite(eng, st, args, info):
    """fwrite(vector data, bytes, 1): the block of the elements of that vector (its content: see BLOCKS)"""
    eng.assumed.add('fwrite')
    pre, idx = elemof(args[0])
    sz = pre[-1][1]
    n = args[1] * args[2]
    st = st.copy()
    p = eng.cell(st, OUT, ('POS', 0), I)
    emit(eng, st, BLOCK, n)
    for suf, s in eng.blockleaves:
        key = (OUT, (('I', 1), 'B', suf))
        src = nsel(eng.cell(st, args[0].region, pre + (suf,), s), idx[:-1])
        arr = eng.cell(st, OUT, (('I', 1), 'B', ('E', 1), suf), s)
        eng.note_write((OUT, (('I', 1), 'B', ('E', 1), suf)))
        j = z3.Int('j')
        st.cells[(OUT, (('I', 1), 'B', ('E', 1), suf))] = z3.Store(arr, p, src)
        eng.oblige(st, 'bounds', 'the block starts at the first element (line %s)' % eng.line(info['ins']), idx[-1] == 0)
    return ret(st, args[2])


def blockcell(c, i, j, suf, s=I):
    """element j of the block written as item i"""
    return z3.Select(z3.Select(c.eng.cell(c.st, OUT, (('I', 1), 'B', ('E', 1), suf), s), i), j)


def links(c, lo=None):
    """the reading functions deliver the items of the stream"""
    i = Inp(c)
    from spec import forall, implies, And
    t = z3.Function('decimal', I, I)
    return And(
        forall(lambda p: (implies(And(i.kind(p) == STR, i.kind(p + 1) == NL), And(LOK(p), LINE(p) == i.a(p))), LINE(p))),
        forall(lambda p: (implies(And(i.kind(p) == INT, i.kind(p + 1) == NL), And(LOK(p), ATOI(LINE(p)) == i.a(p))), LINE(p))),
        forall(lambda p: (implies(And(i.kind(p) == STR, i.kind(p + 1) == NL), LOK(p)), LOK(p))),
        forall(lambda p: (implies(And(i.kind(p) == INT, i.kind(p + 1) == NL), LOK(p)), LOK(p))),
        forall(lambda p: (implies(i.kind(p) == INT, NUM(p) == i.a(p)), NUM(p))),
        forall(lambda p: (implies(And(i.kind(p) == INT, i.kind(p + 1) == NL), SCANS(p, 1)), SCANS(p, 1))),
        forall(lambda p: (implies(And(i.kind(p) == INT, i.kind(p + 1) == SP, i.kind(p + 2) == INT, i.kind(p + 3) == NL),
                                  SCANS(p, 2)), SCANS(p, 2))),
        forall(lambda p, n: (implies(And(i.kind(p) == STR, strmap.slen(c.eng, i.a(p)) == n),
                                     And(ROK(p, n), RAW(p, n) == i.a(p))), RAW(p, n))),
        forall(lambda p, n: (implies(And(i.kind(p) == BLOCK, i.a(p) == n), BOK(p, n)), BOK(p, n))))


RULES = [(r'^std::exception::~?exception\(\)', stl.noop), (r'^(__isoc\d+_)?fscanf$', r_fscanf), (r'^fprintf$', r_fprintf), (r'^fputs$', r_fputs), (r'^fputc$', r_fputc), (r'^putc$', r_fputc),
         (r'^atoi$', r_atoi), (r'^fread$', r_fread), (r'^fwrite$', r_fwrite), (r'^str::read_line\(', r_read_line),
         (r'^str::read_string\(', r_read_string), (r'^(strerror|perror)$', stl.noop), (r'^__errno_location$', lambda eng, st, args, info: ret(st, Ptr('#errno', (0,)))), (r'^ferror$', lambda eng, st, args, info: ret(st, eng.fresh('ferror', I)))]

VEC = 7                      # "[ w1 .. wn ]": the words of a key, and how many


def r_print_indices(eng, st, args, info):
    """print_indices(FILE*, const int *v, int dim) (proved item by item where it is defined)"""
    import store
    if std(eng, st, args[0]):
        return stl.noop(eng, st, args, info)
    st = st.copy()
    p = eng.cell(st, OUT, ('POS', 0), I)
    n = args[2]
    key = (OUT, (('I', 1), 'D'))
    eng.note_write(key)
    st.cells[key] = z3.Store(eng.cell(st, OUT, key[1], I), p, n)
    emit(eng, st, VEC, store.keyof(eng, st, args[1], 4 * n))
    return ret(st)


VECRULES = [(r'^print_indices\(_IO_FILE\*, int const\*, int\)', r_print_indices)]
