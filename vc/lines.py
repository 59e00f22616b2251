"""Assumed contracts for reading a text file line by line and taking lines apart.

The file is the sequence of its lines (position: region #in, LINE); a text is its identity (strmap), its fields, its
first character, and the number it spells are functions of the text."""
import z3
import strmap, stl, recio
from sym import Ptr, I, R, nsel
from stl import ret
from ir import Unsupported

ARR = z3.ArraySort(I, I)
NLINES = z3.Int('number_of_lines')
LID = z3.Function('line_text', I, I)                     # text of line l
BLANK = z3.Function('is_blank', I, z3.BoolSort())
CH0 = z3.Function('first_char', I, I)
WITH0 = z3.Function('with_first_char', I, I, I)
TOK = z3.Function('field', I, I, I, I)                   # text, separators, position
NTOK = z3.Function('number_of_fields', I, I, I)
NUMV, NUMOK = z3.Function('number_in', I, I), z3.Function('is_number', I, z3.BoolSort())
SUB = z3.Function('part_of', I, I, I, I)
CLEAN = z3.Function('stripped', I, I, I)
STRTOD = z3.Function('real_in', I, R)
REALOK = z3.Function('is_real', I, z3.BoolSort())
RAW = z3.Function('line_with_end', I, I)               # text of line l with its line end
LPOS = ('#in', ('LINE', 0))


def lpos(c):
    return c.eng.cell(c.st, LPOS[0], LPOS[1], I)


def chpath(p):
    return stl.join(p, (0, 'CH', 0))


def setch(eng, st, p, v):
    k = (p.region, chpath(p))
    eng.note_write(k)
    st.cells[k] = stl.nstore(eng.cell(st, k[0], k[1], I), p.idx, v)


def text_of(eng, st, p):
    """the text of a string whose first character may have been overwritten"""
    sid = strmap.sidp(eng, st, p)
    ch = nsel(eng.cell(st, p.region, chpath(p), I), p.idx)
    return z3.If(ch == CH0(sid), sid, WITH0(sid, ch))


def r_line(eng, st, args, info):
    eng.assumed.add('str::read_line: delivers the lines one after another')
    l = eng.cell(st, LPOS[0], LPOS[1], I)
    a, b = st.copy(), st.copy()
    a.assume(l < NLINES)
    b.assume(l >= NLINES)
    chomp = len(args) < 3 or z3.is_true(args[2]) or z3.is_int_value(args[2]) and args[2].as_long() == 1
    s = (LID if chomp else RAW)(l)
    strmap.setsid(eng, a, args[0], s)
    setch(eng, a, args[0], CH0(s))
    eng.note_write(LPOS)
    a.cells[LPOS] = l + 1
    strmap.setsid(eng, b, args[0], strmap.strlit(eng, ''))
    setch(eng, b, args[0], CH0(strmap.strlit(eng, '')))
    b.assume(CH0(strmap.strlit(eng, '')) == 0)
    out = []
    for s, v in ((a, True), (b, False)):
        if eng.quick(s.pc):
            out.append(('ret', s, z3.BoolVal(v)))
    return out


def r_sscanf(eng, st, args, info):
    """the first line"""
    eng.assumed.add('sscanf')
    if recio.literal(eng, args[1]) != '\\vocabsize %d':
        raise Unsupported('sscanf')
    a = st.copy()
    s = strmap.cid(eng, st, args[0])
    eng.store(a, args[2], NUMV(s), ('i', 32))
    return [('ret', a, z3.If(NUMOK(s), z3.IntVal(1), z3.IntVal(0)))]


def r_find(eng, st, args, info):
    eng.assumed.add('std::string::find_first_not_of')
    s = strmap.sidp(eng, st, args[0])
    p = eng.fresh('found', I)
    st = st.copy()
    st.assume(z3.And(p >= 0, p < 2 ** 62))
    return ret(st, z3.If(BLANK(s), z3.IntVal(-1), p))


def r_char(eng, st, args, info):
    if not (z3.is_int_value(args[1]) and args[1].as_long() == 0):
        raise Unsupported('character of a string')
    return ret(st, Ptr(args[0].region, chpath(args[0]), args[0].idx))


def sep(eng, s, group=True):
    """the separators of a call of split"""
    return strmap.strlit(eng, 'split at "%s"%s' % (s, ' (runs)' if group else ''))


def r_clean(eng, st, args, info):
    eng.assumed.add('str::clean')
    d = recio.literal(eng, args[1])
    if d is None:
        raise Unsupported('clean')
    s = CLEAN(strmap.sidp(eng, st, args[0]), strmap.strlit(eng, d))
    st = st.copy()
    strmap.setsid(eng, st, args[0], s)
    setch(eng, st, args[0], CH0(s))
    return ret(st)


def r_substr(eng, st, args, info):
    eng.assumed.add('std::string::substr')
    s = SUB(strmap.sidp(eng, st, args[1]), args[2], args[3])
    st = st.copy()
    strmap.setsid(eng, st, args[0], s)
    setch(eng, st, args[0], CH0(s))
    return ret(st)


def r_strtod(eng, st, args, info):
    eng.assumed.add('strtod')
    s = strmap.cid(eng, st, args[0])
    st = st.copy()
    if isinstance(args[1], Ptr) and args[1].region:
        eng.store(st, args[1], Ptr('#end', (0,)), ('ptr',))
        eng.store(st, Ptr('#end', (0,)), z3.If(REALOK(s), z3.IntVal(0), z3.IntVal(120)), ('i', 8))
    return ret(st, STRTOD(s))


def r_split(eng, st, args, info):
    eng.assumed.add('str::split: the fields of a line (contract proved by C22)')
    d = recio.literal(eng, args[1])
    if d is None:
        raise Unsupported('split')
    d = sep(eng, d, z3.is_true(args[2]) or z3.is_int_value(args[2]) and args[2].as_long() == 1)
    s, v = strmap.sidp(eng, st, args[0]), args[3]
    st = st.copy()
    n = NTOK(s, d)
    st.assume(z3.And(n >= 0, n < 2 ** 31))
    stl.set_size(eng, st, v, n)
    el = v.newstep(32, z3.IntVal(0), 'V')
    sp, cp = stl.join(el, (0, 'STR', 0)), chpath(el)
    sa, ca = eng.fresh('fields', ARR), eng.fresh('chars', ARR)
    i = z3.Int('i?%s' % sa.decl().name())
    st.assume(z3.ForAll([i], z3.And(z3.Select(sa, i) == TOK(s, d, i), z3.Select(ca, i) == CH0(TOK(s, d, i))), patterns=[z3.Select(sa, i)]))
    st.assume(z3.ForAll([i], z3.Select(ca, i) == CH0(TOK(s, d, i)), patterns=[z3.Select(ca, i)]))
    for path, arr in ((sp, sa), (cp, ca)):
        k = (el.region, path)
        eng.note_write(k)
        st.cells[k] = stl.nstore(eng.cell(st, k[0], k[1], I), el.idx[:-1], arr)
    return ret(st)


def r_long(eng, st, args, info):
    eng.assumed.add('str::str2long (contract proved by C22)')
    s = text_of(eng, st, args[0])
    st = st.copy()
    ok = eng.load(st, args[1], ('i', 8))
    st.assume(z3.And(NUMV(s) >= -2 ** 63, NUMV(s) < 2 ** 63))
    eng.store(st, args[1], z3.If(NUMOK(s), ok, z3.IntVal(0)), ('i', 8))
    return ret(st, NUMV(s))


_S = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'
RULES = [(r'^str::read_line\(', r_line), (r'^(__isoc\d+_)?sscanf$', r_sscanf), (_S + r'find_first_not_of\(', r_find),
         (_S + r'operator\[\]\(', r_char), (_S + r'substr\(', r_substr), (r'^str::split\(', r_split), (r'^str::clean\(', r_clean),
         (r'^strtod$', r_strtod), (r'^str::str2long\(std', r_long), (r'^feof$', lambda eng, st, args, info: ret(st, eng.fresh('feof', I)))]
