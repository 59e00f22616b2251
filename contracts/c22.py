"""C22: text helpers split, trim and convert as documented.

Strings are sequences of characters (charstr.py).  S(k) and E(k) are the start and the end of
the k-th field of the text; DEL(ch) is "ch is one of the delimiters"."""
import z3
import charfile, charstr, stl
from charstr import ISIN
from moc import P
from sym import Spec, Loop, Ptr, I, R
from spec import forall, implies, And, Or, Not, If, V

STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
S = z3.Function('field_start', I, I)
E = z3.Function('field_end', I, I)
NOEXIT = lambda c: z3.BoolVal(False)


def size(c, p):
    return stl.get_size(c.eng, c.st, p)


def ch(c, p, i):
    return z3.Select(charstr.content(c.eng, c.st, p), i)


def text(c, i):
    return ch(c, c.a('str'), i)


def n(c):
    return size(c, c.a('str'))


def sel(c, name, x):
    return ISIN(charstr.setid(c.eng, c.a(name)), x)


def plain(c):
    """no NUL inside the text (it would end it for the C functions)"""
    return forall(lambda j: (implies(And(0 <= j, j < n(c)), text(c, j) != 0), text(c, j)))


def sizes(c):
    return And(n(c) >= 0, n(c) < 2 ** 31 - 2)


# ---------------------------------------------------------------- chomp, clean
chomp = Spec(
    'str::chomp(%s*)' % STR, unit='str.cc', requires=[('size', sizes)], assigns=lambda c: [c.a('str')], exits=NOEXIT,
    ensures=[('one newline at the end is removed', lambda c: And(
        n(c) == n(c.old) - If(And(n(c.old) > 0, text(c.old, n(c.old) - 1) == 10), 1, 0),
        forall(lambda j: (implies(And(0 <= j, j < n(c)), text(c, j) == text(c.old, j)), text(c, j)))))])

A0, B0 = z3.Int('first_kept'), z3.Int('end_kept')


def kept_def(c):
    """[A0, B0): the text without leading and trailing characters of the set"""
    return And(0 <= A0, A0 <= B0, B0 <= n(c),
               forall(lambda j: (implies(And(B0 <= j, j < n(c)), sel(c, 'chars', text(c, j))), text(c, j))),
               forall(lambda j: (implies(And(0 <= j, j < A0), sel(c, 'chars', text(c, j))), text(c, j))),
               implies(B0 > 0, Not(sel(c, 'chars', text(c, B0 - 1)))), implies(A0 < B0, Not(sel(c, 'chars', text(c, A0)))),
               implies(B0 == 0, A0 == 0))


clean = Spec(
    'str::clean(%s*, char const*)' % STR, unit='str.cc',
    requires=[('size', sizes), ('what is kept', kept_def), ('no NUL inside the text', plain)], assigns=lambda c: [c.a('str')], exits=NOEXIT,
    ensures=[('exactly the leading and trailing characters are removed', lambda c: And(
        n(c) == B0 - A0, forall(lambda j: (implies(And(0 <= j, j < n(c)), text(c, j) == text(c.old, A0 + j)), text(c, j)))))],
    loops=[Loop([('nothing kept after', lambda c: And(c.v('i') <= n(c), c.v('i') >= B0, n(c) == n(c.old),
                                                      forall(lambda j: (text(c, j) == text(c.old, j), text(c, j)))))]),
           Loop([('nothing kept before', lambda c: And(c.v('i') >= 0, c.v('i') <= A0, n(c) == B0, forall(lambda j: (implies(
               And(0 <= j, j < n(c)), text(c, j) == text(c.old, j)), text(c, j)))))])])


# ---------------------------------------------------------------- split
def DEL(c, x):
    return sel(c, 'delims', x)


def fields_def(c):
    N = n(c)
    g = c.a('group')
    g = g if z3.is_bool(g) else g != 0
    return And(
        S(0) == 0,
        forall(lambda k: (implies(And(k >= 0, S(k) < N), And(
            S(k) >= 0, S(k) <= E(k), E(k) <= N, implies(E(k) < N, DEL(c, text(c, E(k)))),
            S(k + 1) >= E(k) + 1, S(k + 1) <= If(E(k) + 1 < N, N, E(k) + 1), implies(Not(g), S(k + 1) == E(k) + 1),
            implies(And(g, S(k + 1) < N), Not(DEL(c, text(c, S(k + 1))))))), S(k))),
        forall(lambda k, j: (implies(And(k >= 0, S(k) < N, S(k) <= j, j < E(k)), Not(DEL(c, text(c, j)))), [(S(k), text(c, j))])),
        forall(lambda k, j: (implies(And(g, k >= 0, S(k) < N, E(k) < j, j < S(k + 1), j < N), DEL(c, text(c, j))),
                             [(S(k), text(c, j))])))


def F(c):
    return c.a('fields')


def fld(c, k):
    return stl.velem(F(c), 32, k)


def field_is(c, k, b, e):
    """field k of the result is text[b, e)"""
    o = c.old
    p = fld(c, k)
    return And(size(c, p) == e - b, forall(lambda j: (implies(And(0 <= j, j < e - b), ch(c, p, j) == text(o, b + j)), ch(c, p, j))))


def nf(c):
    return size(c, F(c))


def full(c, upto):
    o = c.old
    return And(forall(lambda k: (implies(And(0 <= k, k < upto), And(S(k) < n(o), size(c, fld(c, k)) == E(k) - S(k))), size(c, fld(c, k)))),
               forall(lambda k, j: (implies(And(0 <= k, k < upto, 0 <= j, j < E(k) - S(k)), ch(c, fld(c, k), j) == text(o, S(k) + j)),
                                    ch(c, fld(c, k), j))))


def last(c):
    """the requested number of fields was reached: the last one holds the rest"""
    return And(c.a('num_fields') > 0, nf(c) == c.a('num_fields'))


def same(c):
    return And(n(c) == n(c.old), forall(lambda j: (text(c, j) == text(c.old, j), text(c, j))))


split = Spec(
    'str::split(%s const*, char const*, bool, std::vector<%s, std::allocator<%s>>*, int)' % (STR, STR, STR), unit='str.cc',
    requires=[('size', sizes), ('no NUL inside the text', plain), ('the fields of the text', fields_def)],
    assigns=lambda c: [c.a('fields')], exits=NOEXIT,
    ensures=[('fields', lambda c: full(c, If(last(c), nf(c) - 1, nf(c)))),
             ('the last requested field holds the rest', lambda c: implies(last(c), And(
                 S(nf(c) - 1) < n(c.old), field_is(c, nf(c) - 1, S(nf(c) - 1), n(c.old))))),
             ('no field is missing', lambda c: And(implies(Not(last(c)), S(nf(c)) >= n(c.old)),
                                                   implies(c.a('num_fields') > 0, nf(c) <= c.a('num_fields'))))],
    loops=[Loop([('fields so far', lambda c: And(c.v('begin') == S(nf(c)), c.v('end') == c.v('begin'), c.v('begin') <= n(c) + 1,
                                                 implies(c.a('num_fields') > 0, nf(c) < c.a('num_fields')), same(c),
                                                 full(c, nf(c))))]),
           Loop([('no delimiter yet', lambda c: And(c.v('begin') == S(nf(c)), c.v('begin') < n(c), c.v('begin') <= c.v('end'),
                                                    c.v('end') <= E(nf(c)), full(c, nf(c)), same(c),
                                                    implies(c.a('num_fields') > 0, nf(c) < c.a('num_fields') - 1)))]),
           Loop([('only delimiters', lambda c: And(c.v('end') >= E(nf(c) - 1) + 1, nf(c) >= 1, c.v('end') <= S(nf(c)),
                                                   S(nf(c) - 1) < n(c), full(c, nf(c)), same(c),
                                                   implies(c.a('num_fields') > 0, nf(c) < c.a('num_fields'))))])])

# ---------------------------------------------------------------- numbers
END = z3.Function('number_end', z3.ArraySort(I, I), I, I)      # text, start -> end of the longest number there (start: none)
LVAL = z3.Function('integer_value', z3.ArraySort(I, I), I, I)
DVAL = z3.Function('real_value', z3.ArraySort(I, I), I, R)


def number(val):
    def rule(eng, st, args, info):
        """strtol/strtod: value of the longest number at the start, position after it (the start itself if there is none)"""
        eng.assumed.add(info['name'])
        p, endp = args[:2]
        if val is LVAL:
            eng.oblige(st, 'base', 'numbers are decimal (line %s)' % eng.line(info['ins']), args[2] == 10)
        st = st.copy()
        arr, i = charr(eng, st, p), p.idx[-1]
        st.assume(And(END(arr, i) >= i, forall(lambda j: (implies(And(i <= j, j < END(arr, i)), z3.Select(arr, j) != 0), z3.Select(arr, j)))))
        eng.store(st, endp, Ptr(p.region, p.path, p.idx[:-1] + (END(arr, i),)), ('ptr',))
        return stl.ret(st, val(arr, i))
    return rule


def charr(eng, st, p):
    a = eng.cell(st, p.region, p.path, I)
    for i in p.idx[:-1]:
        a = z3.Select(a, i)
    return a


def cstring(eng, args, names, st):
    i = names.index('str')
    args[i] = Ptr(args[i].region, (0, ('V', 1), 0), (z3.IntVal(0),))
    return args


def at(c, i):
    return z3.Select(charr(c.eng, c.st, c.a('str')), i)


def okv(c):
    return c.ld(c.a('ok'), 'i8')


def end(c):
    p = c.a('str')
    return END(charr(c.eng, c.st, p), p.idx[-1])


def complete(c):
    """the text is not empty and nothing follows the number"""
    return And(at(c, c.a('str').idx[-1]) != 0, at(c, end(c)) == 0)


def val(c, f):
    p = c.a('str')
    return f(charr(c.eng, c.st, p), p.idx[-1])


LONGMAX = 2 ** 63 - 1


def conv(fn, f, ret, exits):
    return Spec(fn, unit='str.cc', ptrs=cstring, assigns=lambda c: [c.a('ok')], exits=exits,
                ensures=[('the flag is kept for complete numbers only', lambda c: okv(c) == If(complete(c.old), okv(c.old), 0)),
                         ('value of the number', lambda c: c.result == val(c.old, f)),
                         ('values out of range are refused', lambda c: Not(exits(c.old)))])


def lrange(c):
    v = val(c, LVAL)
    return Or(v == LONGMAX, v == -LONGMAX - 1)


str2long = conv('str::str2long(char const*, bool*)', LVAL, I, lrange)


def obj(c):
    p = c.a('str')
    return charstr.content(c.eng, c.st, p)


def sconv(fn, f, exits):
    def e(c):
        a = z3.Store(obj(c), n(c), 0)
        return END(a, 0)

    def v(c):
        return f(z3.Store(obj(c), n(c), 0), z3.IntVal(0))
    ok = lambda c: And(n(c) > 0, e(c) == n(c))
    return Spec(fn, unit='str.cc', assigns=lambda c: [c.a('ok')], requires=[('size', sizes), ('no NUL inside the text', plain),
                ('a number ends inside the text', lambda c: And(e(c) >= 0, e(c) <= n(c)))],
                exits=lambda c: exits(v(c)),
                ensures=[('accepted if and only if the whole text is a number', lambda c: okv(c) == If(ok(c.old), okv(c.old), 0)),
                         ('value of the number', lambda c: c.result == v(c.old))])


str2long_s = sconv('str::str2long(%s const*, bool*)' % STR, LVAL, lambda v: Or(v == LONGMAX, v == -LONGMAX - 1))

INF = [z3.Real('fp_0x7FF0000000000000'), z3.Real('fp_0xFFF0000000000000')]      # HUGE_VAL of both signs
str2float = conv('str::str2float(char const*, bool*)', DVAL, R, lambda c: Or(val(c, DVAL) == INF[0], val(c, DVAL) == INF[1]))
str2float_s = sconv('str::str2float(%s const*, bool*)' % STR, DVAL, lambda v: Or(v == INF[0], v == INF[1]))

# ---------------------------------------------------------------- safe logarithms
LOG10 = z3.Function('log10', R, R)
FLOOR = z3.RealVal('1/1' + '0' * 60)


def log_fact(c):
    """log10 grows and is -60 at 1e-60"""
    x, y = z3.Reals('x y')
    return And(LOG10(FLOOR) == -60, z3.ForAll([x], implies(x > FLOOR, LOG10(x) > -60), patterns=[LOG10(x)]))


safelogprob = Spec(
    'safelogprob(double)', unit='unit:inter.cc', requires=[('logarithm', log_fact)], assigns=lambda c: [], exits=NOEXIT,
    ensures=[('logarithm or floor', lambda c: c.result == If(c.a('x') > FLOOR, LOG10(c.a('x')), z3.RealVal(-60))),
             ('never below the floor', lambda c: c.result >= -60)])

FC, FLEN, FERR, EOL = charfile.FC, charfile.FLEN, charfile.FERR, charfile.EOL


def filetext(c):
    """a text file without NUL; EOL(p) is the position past the first line end from p, or the end of the file"""
    return And(0 <= charfile.pos(c), charfile.pos(c) <= FLEN, FLEN < 2 ** 31 - 8192, charfile.hit(c) == 0,
               forall(lambda j: (implies(And(0 <= j, j < FLEN), z3.Select(FC, j) != 0), z3.Select(FC, j))),
               forall(lambda p: (implies(And(0 <= p, p < FLEN), And(
                   p < EOL(p), EOL(p) <= FLEN, implies(EOL(p) < FLEN, z3.Select(FC, EOL(p) - 1) == 10))), EOL(p))),
               forall(lambda p, j: (implies(And(0 <= p, p <= j, j < EOL(p) - 1, p < FLEN), z3.Select(FC, j) != 10), [(EOL(p), z3.Select(FC, j))])))


def line_end(c):
    return EOL(charfile.pos(c.old))


def ended(c):
    """the line has a line end"""
    return z3.Select(FC, line_end(c) - 1) == 10


def b_(x):
    return x if z3.is_bool(x) else x != 0


read_line = Spec(
    'str::read_line(%s*, _IO_FILE*, bool)' % STR, unit='str.cc', exits=NOEXIT,
    requires=[('text file', filetext)], assigns=lambda c: [c.a('str'), Ptr(*charfile.POS), Ptr(*charfile.HIT)],
    ensures=[('a line is there unless the file ended or could not be read', lambda c: b_(c.result) == And(
        charfile.pos(c.old) < FLEN, Or(Not(FERR), ended(c)))),
             ('the position moves past the line', lambda c: charfile.pos(c) == If(charfile.pos(c.old) < FLEN, line_end(c), charfile.pos(c.old))),
             ('exactly the characters of the line', lambda c: implies(b_(c.result), And(
                 n(c) == line_end(c) - charfile.pos(c.old) - If(And(b_(c.a('do_chomp')), ended(c)), 1, 0),
                 forall(lambda j: (implies(And(0 <= j, j < n(c)), text(c, j) == z3.Select(FC, charfile.pos(c.old) + j)), text(c, j))))))],
    loops=[Loop([('read so far', lambda c: And(
        n(c) == charfile.pos(c) - charfile.pos(c.old), n(c) >= 0, charfile.pos(c) <= FLEN, charfile.hit(c) >= 0, charfile.hit(c) <= 1,
        implies(charfile.hit(c) == 1, charfile.pos(c) == FLEN),
        forall(lambda j: (implies(And(0 <= j, j < n(c)), text(c, j) == z3.Select(FC, charfile.pos(c.old) + j)), text(c, j))))),
                 ('the line goes on', lambda c: And(
                     implies(charfile.pos(c.old) < FLEN, charfile.pos(c) <= line_end(c)),
                     implies(And(charfile.pos(c.old) < FLEN, charfile.pos(c) > charfile.pos(c.old)), z3.Select(FC, charfile.pos(c) - 1) != 10),
                     implies(And(charfile.pos(c.old) < FLEN, charfile.pos(c) < FLEN), EOL(charfile.pos(c)) == line_end(c))))])])



def fileok(c):
    return And(0 <= charfile.pos(c), charfile.pos(c) <= FLEN, FLEN < 2 ** 31 - 8192, charfile.hit(c) == 0)


def gathered(c):
    """the string is the file from the old position to the new one"""
    return And(n(c) == charfile.pos(c) - charfile.pos(c.old), n(c) >= 0, charfile.pos(c) <= FLEN,
               forall(lambda j: (implies(And(0 <= j, j < n(c)), text(c, j) == z3.Select(FC, charfile.pos(c.old) + j)), text(c, j))))


FILES = lambda c: [c.a('str'), Ptr(*charfile.POS), Ptr(*charfile.HIT)]
read_string = Spec(
    'str::read_string(%s*, unsigned long, _IO_FILE*)' % STR, unit='str.cc', exits=NOEXIT, assigns=FILES,
    requires=[('file', fileok), ('length', lambda c: And(c.a('length') >= 0, c.a('length') < 2 ** 31 - 2))],
    ensures=[('all the bytes or a failure', lambda c: b_(c.result) == (charfile.pos(c.old) + c.a('length') <= FLEN)),
             ('exactly the bytes asked for', lambda c: implies(b_(c.result), And(gathered(c), n(c) == c.a('length'))))],
    loops=[Loop([('read so far', lambda c: And(gathered(c), c.v('length') >= 0, c.v('length') + n(c) == c.a('length'),
                                               c.v('buf_size') >= 0, c.v('buf_size') <= 4096, Or(c.v('length') == 0, c.v('buf_size') == 4096)))])])

read_file = Spec(
    'str::read_file(%s*, _IO_FILE*, unsigned long)' % STR, unit='str.cc', exits=NOEXIT, assigns=FILES,
    requires=[('file', fileok), ('length', lambda c: And(c.a('length') >= 0, c.a('length') < 2 ** 31 - 2))],
    ensures=[('failure only for an unreadable file', lambda c: implies(Not(b_(c.result)), FERR)),
             ('exactly the rest of the file, up to the length', lambda c: implies(b_(c.result), And(
                 gathered(c), Or(charfile.pos(c) == FLEN, And(c.a('length') > 0, n(c) == c.a('length'))),
                 implies(c.a('length') > 0, n(c) <= c.a('length')))))],
    loops=[Loop([('read so far', lambda c: And(gathered(c), implies(c.a('length') > 0, n(c) < c.a('length'))))]),
           Loop([('copied so far', lambda c: And(0 <= c.v('i'), n(c) == c.v('new_size'), forall(lambda j: (implies(And(0 <= j, j < c.v('pos') + c.v('i')), text(
               c, j) == z3.Select(FC, charfile.pos(c.old) + j)), text(c, j)))))])])

SPECS = [read_line, read_string, read_file, chomp, clean, split, str2long, str2long_s, str2float, str2float_s, safelogprob]


def configure(eng, s):
    charstr.install(eng)
    eng.stl.rules[:0] = charfile.RULES
    eng.stl.rules[:0] = [(r'(__isoc23_)?strtol$', number(LVAL)), (r'(__isoc23_)?strtod$', number(DVAL))]


HARNESS = 'c22.cc'
BOUNDED = 'random texts over small alphabets (blanks, delimiters, digits, multi-byte characters), random numbers in many notations, probabilities down to and below the floor'
DECIDES = 'split gives exactly the fields of the text (with grouping and a limit), clean and chomp remove exactly what they should, str2long and str2float accept complete numbers in range only, safelogprob is floored; read_line, read_string and read_file deliver exactly the next line, the bytes asked for or the rest of the file, across their buffer'
BOUNDED_FUNCTIONS = ['safelogprob2']
NOTE = ('strtol/strtod and strchr are assumed contracts of the C library (the longest number at the start; membership in the set), and so are fgets, fread and ferror (the characters of the file in order); '
        'texts contain no NUL. ')
