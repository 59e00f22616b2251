"""C12: ARPA files are parsed faithfully and inconsistent ones are refused."""
import z3
import sym
import spec, stl, strmap, recio, vocab, lines, tree
from lines import LID, RAW, BLANK, CH0, TOK, NTOK, SUB, CLEAN, STRTOD, REALOK, NLINES, lpos
from recio import ATOI
from sym import Spec, Loop, Ptr, I, R
from spec import forall, implies, And, Or, Not, If

U = 'ArpaReader.cc'
NOEXIT = lambda c: z3.BoolVal(False)
VALID = z3.Bool('the_file_is_consistent')
STRS = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>&'


def ar(c):
    return c.obj('this', 'ArpaReader')


def lit(c, s):
    return strmap.strlit(c.eng, s)


def line(c):
    return strmap.sidp(c.eng, c.st, c.a('line'))


def first(c):
    p = c.a('line')
    return sym.nsel(c.eng.cell(c.st, p.region, lines.chpath(p), I), p.idx)


# ---------------------------------------------------------------- header
DATA, BODY = z3.Ints('data_line first_section_line')     # "\\data\\", first line after it that starts with a backslash
NB = z3.Function('count_lines_before', I, I)
NPOS = -1


def body(c, l):
    """the text of a count line after "ngram " taken apart"""
    return SUB(LID(l), 6, NPOS)


def cnt(c, l, i):
    return ATOI(TOK(body(c, l), lines.sep(c.eng, '=', False), i))


def good(c, l):
    """a line of the header is blank or the next count"""
    d = lines.sep(c.eng, '=', False)
    return Or(BLANK(LID(l)), And(SUB(LID(l), 0, 6) == lit(c, 'ngram '), NTOK(body(c, l), d) == 2, cnt(c, l, 0) == NB(l) + 1, cnt(c, l, 1) >= 0))


def header(c):
    """the layout of the header from the position on"""
    s = lpos(c.old)
    return And(s <= DATA, DATA < BODY, BODY < NLINES, LID(DATA) == lit(c, '\\data\\'),
               forall(lambda l: (implies(And(s <= l, l < DATA), LID(l) != lit(c, '\\data\\')), LID(l))),
               CH0(LID(BODY)) == 92, forall(lambda l: (implies(And(DATA < l, l < BODY), CH0(LID(l)) != 92), CH0(LID(l)))))


def nbdef(c):
    return And(NB(DATA + 1) == 0, forall(lambda l: (implies(l > DATA, NB(l + 1) == NB(l) + If(BLANK(LID(l)), 0, 1)), NB(l + 1))),
               NB(BODY) >= 0)


def consistent(c):
    return And(NB(BODY) >= 1, forall(lambda l: (implies(And(DATA < l, l < BODY), good(c, l)), BLANK(LID(l)))))


def listed(c, n):
    """the counts of the lines before line n"""
    return And(ar(c).counts.size == NB(n), NB(n) >= 0, forall(lambda l: (implies(And(DATA < l, l < n, Not(BLANK(LID(l)))), And(
        NB(l) >= 0, NB(l) < NB(n), ar(c).counts[NB(l)] == cnt(c, l, 1))), BLANK(LID(l)))))


def allgood(c, n):
    return forall(lambda l: (implies(And(DATA < l, l < n), good(c, l)), BLANK(LID(l))))


interp = lambda c: c.ld(c.a('interpolated'), 'i8') != 0


def marked(c, n):
    """a line before "\\data\\" that says the model is interpolated"""
    m = z3.Function('marks_interpolated', I, z3.BoolSort())
    return m


ISI = z3.Function('interpolated_before', I, z3.BoolSort())


def isidef(c):
    s = lpos(c)
    return And(Not(ISI(s)), forall(lambda l: (implies(l >= s, ISI(l + 1) == Or(ISI(l), LID(l) == lit(c, '\\interpolated'), LID(l) == lit(c, 'iARPA'))), ISI(l + 1))))


read_header = Spec(
    'ArpaReader::read_header(_IO_FILE*, bool&, %s)' % STRS, unit=U,
    requires=[('position', lambda c: And(lpos(c) >= 0, NLINES < 2 ** 30, ar(c).counts.size == 0)), ('where the header is', header), ('numbers of count lines', nbdef),
              ('marks', isidef), ('a consistent file', lambda c: implies(VALID, consistent(c)))],
    assigns=lambda c: [ar(c).loc('counts'), ar(c).loc('m_vec'), ar(c).loc('m_lineno'), c.a('interpolated'), c.a('line'), Ptr('#in', ('LINE', 0))],
    exits=lambda c: Not(VALID),
    ensures=[('only a consistent header is accepted', lambda c: consistent(c)),
             ('the counts listed', lambda c: listed(c, BODY)), ('number of orders', lambda c: And(ar(c).counts.size == NB(BODY), NB(BODY) >= 1)),
             ('type', lambda c: interp(c) == ISI(DATA + 1)),
             ('position', lambda c: And(lpos(c) == BODY + 1, line(c) == LID(BODY), first(c) == CH0(line(c))))],
    loops=[Loop([('before the header', lambda c: And(lpos(c) >= lpos(c.old), lpos(c) <= DATA, ar(c).counts.size == 0, interp(c) == ISI(lpos(c))))]),
           Loop([('in the header', lambda c: And(lpos(c) > DATA, lpos(c) <= BODY, c.v('order') == NB(lpos(c)) + 1, NB(lpos(c)) <= lpos(c))),
                 ('counts so far', lambda c: listed(c, lpos(c))), ('lines so far', lambda c: allgood(c, lpos(c))),
                 ('type', lambda c: interp(c) == ISI(DATA + 1))])])

# ---------------------------------------------------------------- one n-gram
def vp(c):
    p = ar(c).loc('m_vocab')
    return Ptr(p.region, p.path + ('D', 0), p.idx)


def voc(c):
    return vocab.voc(c, p=vp(c))


def T(c):
    """the text of the n-gram read last"""
    return CLEAN(RAW(lpos(c) - 1), lit(c, ' \t\n'))


def fields(c):
    return NTOK(T(c), lines.sep(c.eng, ' \t'))


def field(c, i):
    return TOK(T(c), lines.sep(c.eng, ' \t'), i)


def section(c, l, o):
    """line l is the header of the n-grams of order o"""
    x = CLEAN(LID(l), lit(c, ' \t'))
    d = lines.sep(c.eng, '-', False)
    return And(CH0(LID(l)) == 92, NTOK(x, d) == 2, ATOI(SUB(TOK(x, d, 0), 1, NPOS)) == o, TOK(x, d, 1) == lit(c, 'grams:'))


ORDER = z3.Function('is_an_order', I, z3.BoolSort())      # marks the orders a header is stated for (true of every number)


def number(c):
    return ar(c).m_gram_num


def rorder(c):
    return ar(c).m_read_order


def done(c):
    """the order being read had all of its n-grams"""
    o = c.old
    return Or(rorder(o) == 0, number(o) >= ar(o).counts[rorder(o) - 1])


def skipped(c, n):
    """the orders passed on the way are listed as empty, and every section starts with its header"""
    o = c.old
    return And(forall(lambda k: (implies(And(rorder(o) < k, k < n), ar(o).counts[k - 1] <= 0), ar(o).counts[k - 1])))


def headers(c, n):
    l = z3.Int('l?hd')
    o = c.old
    return forall(lambda k: (implies(And(ORDER(k), rorder(o) < k, k <= n, k <= ar(o).counts.size), z3.Exists([l], And(
        lpos(o) - 1 <= l, l < lpos(c), section(c, l, k)))), ORDER(k)))


def known(c):
    """words keep their indices"""
    a, b = voc(c.old), voc(c)
    return And(b.n >= a.n, forall(lambda i: (implies(And(0 <= i, i < a.n), b.word(i) == a.word(i)), b.word(i))))


def gram(c):
    return spec.V(c.eng, c.st, c.a('gram'), c.eng.mod.find_di_type('vector<int, std::allocator<int> >'))


def words(c, n):
    g = gram(c)
    return forall(lambda i: (implies(And(0 <= i, i < n), And(0 <= g[i], g[i] < voc(c).n, voc(c).word(g[i]) == field(c, i + 1))), g[i]))


def literal(c):
    """what the header of the 1-grams reads as"""
    t = TOK(CLEAN(lit(c, '\\1-grams:'), lit(c, ' \t')), lines.sep(c.eng, '-', False), 0)
    return ATOI(SUB(t, 1, NPOS)) == 1


truth = lambda x: x if z3.is_bool(x) else x != 0
R_ = lambda c: truth(c.result)
NEXT = [
    ('state', lambda c: And(rorder(c) >= 0, rorder(c) <= ar(c).counts.size, ar(c).counts.size < 2 ** 20, number(c) >= 0)),
    ('vocabulary', lambda c: And(vocab.inv(c, p=vp(c)), voc(c).n < 2 ** 30)),
    ('position', lambda c: And(lpos(c) >= 1, NLINES < 2 ** 30, implies(rorder(c) == 0, And(line(c) == LID(lpos(c) - 1), first(c) == CH0(line(c)))))), ('header of the 1-grams', literal), ('orders', lambda c: forall(lambda k: (ORDER(k), ORDER(k))))]
next_gram = Spec(
    'ArpaReader::next_gram(_IO_FILE*, %s, std::vector<int, std::allocator<int>>&, float&, float&)' % STRS, unit=U, requires=NEXT,
    assigns=lambda c: [ar(c).loc(m) for m in ('m_read_order', 'm_gram_num', 'm_lineno', 'm_vec')] + [
        voc(c).ix, voc(c).ws, c.a('line'), c.a('gram'), c.a('log_prob'), c.a('back_off'), Ptr('#in', ('LINE', 0)), Ptr('#end', (0,))],
    ensures=[('state', lambda c: implies(R_(c), NEXT[0][1](c))), ('reading', lambda c: implies(R_(c), And(rorder(c) >= 1, number(c) <= ar(c).counts[rorder(c) - 1]))),
             ('vocabulary', lambda c: And(vocab.inv(c, p=vp(c)), known(c))),
             ('as many n-grams of each order as listed', lambda c: If(And(R_(c), rorder(c) == rorder(c.old)), And(
                 number(c) == number(c.old) + 1, Not(done(c))), And(
                 done(c), rorder(c) > rorder(c.old), skipped(c, rorder(c)), implies(R_(c), number(c) == 1)))),
             ('end of the file', lambda c: implies(Not(R_(c)), And(rorder(c) == ar(c).counts.size + 1, line(c) == lit(c, '\\end\\')))),
             ('sections start with their header', lambda c: headers(c, rorder(c))),
             ('position', lambda c: lpos(c) >= lpos(c.old)),
             ('values', lambda c: implies(R_(c), And(
                 Or(fields(c) == rorder(c) + 1, fields(c) == rorder(c) + 2), Not(BLANK(T(c))), REALOK(field(c, 0)),
                 c.ld(c.a('log_prob'), 'float') == STRTOD(field(c, 0)),
                 c.ld(c.a('back_off'), 'float') == If(fields(c) == rorder(c) + 2, STRTOD(field(c, rorder(c) + 1)), 0),
                 implies(fields(c) == rorder(c) + 2, REALOK(field(c, rorder(c) + 1)))))),
             ('words', lambda c: implies(R_(c), And(gram(c).size == rorder(c), words(c, rorder(c)))))],
    loops=[Loop([('state', lambda c: And(NEXT[0][1](c), lpos(c) >= lpos(c.old), vocab.inv(c, p=vp(c)), rorder(c) >= rorder(c.old))),
                 ('here', lambda c: If(rorder(c) == rorder(c.old), And(number(c) == number(c.old), lpos(c) == lpos(c.old), line(c) == line(c.old), first(c) == first(c.old)),
                                      And(number(c) == 0, done(c)))),
                 ('sections', lambda c: skipped(c, rorder(c))), ('headers', lambda c: headers(c, rorder(c)))]),
           Loop([('range', lambda c: lpos(c) >= lpos(c.pre)), ('the header is there already', lambda c: Or(line(c.pre) != lit(c, '\\1-grams:'), And(
               line(c) == line(c.pre), first(c) == first(c.pre), lpos(c) == lpos(c.pre))))]),
           Loop([('range', lambda c: lpos(c) >= lpos(c.pre))]),
           Loop([('range', lambda c: And(0 <= c.v('i'), c.v('i') <= rorder(c))), ('vocabulary', lambda c: And(vocab.inv(c, p=vp(c)), known(c), voc(c).n <= voc(c.old).n + c.v('i'))),
                 ('words', lambda c: words(c, c.v('i')))])])

SPECS = [read_header, next_gram]
CONTRACTS = vocab.SPECS + SPECS
TIMEOUT = 60


def configure(eng, s):
    eng.stl.rules[:0] = lines.RULES + recio.RULES


HARNESS = 'c12.cc'
BOUNDED = ('random models of both types: listed in random orders, read, queried, written and read again; corrupted counts, orders, duplicates, '
           'missing sections')
BOUNDED_FUNCTIONS = ['TreeGramArpaReader::read and write (the sorting itself is proved under C05)', 'TreeGram::add_gram, check_order, find_path']
DECIDES = ('read_header takes exactly a consistent header: the count of every order, in order, the model type, and stops at the first section; next_gram '
           'delivers as many n-grams of each order as listed, each from one line with order+1 or order+2 columns, with the probability, the back-off and '
           'the words of that line, below the header of its section, and ends only at the end mark after all orders')
NOTE = ('A text is an identity with its fields, its first character and the number it spells as functions of it: str::split, clean, substr, atoi and '
        'strtod are assumed to compute those functions; str::read_line delivers the lines of the file one after another (proved at the level of bytes under C22).')
