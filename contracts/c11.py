"""C11: a binary model file is written in one layout, and read back from that layout.

The layout is stated once (layout) and used for the items write_real produces and for the items read consumes."""
import z3
import spec, stl, strmap, recio, vocab
from sym import Spec, Loop, Ptr, I, R
from spec import forall, implies, And, Or, Not, If
from recio import NL, SP, STR, INT, BLOCK

U = 'TreeGram.cc'
NOEXIT = lambda c: z3.BoolVal(False)
LEAVES = [(0, I), (4, R), (8, R), (12, I)]
FIELDS = {0: 'word', 4: 'log_prob', 8: 'back_off', 12: 'child_index'}


def tg(c):
    return c.obj('this', 'TreeGram')


def voc(c):
    return vocab.voc(c, p=c.a('this').off(8))


def vinv(c):
    return vocab.inv(c, p=c.a('this').off(8))


def fmtid(c):
    return c.eng.cell(c.st, '@_ZL10format_strB5cxx11', (0, 'STR', 0), I)


def big(c):
    return c.ld(Ptr('@_ZN6Endian3bigE', (0,)), 'i8')


def end_words(w):
    return 5 + 2 * w


def layout(i, fmt, typ, w, wd, order, nodes, cnt):
    """items of a binary model file up to the node block"""
    p = end_words(w)
    q = p + 4
    return And(i.is_(0, STR, fmt), i.is_(1, STR, typ), i.is_(2, NL), i.is_(3, INT, w), i.is_(4, NL),
               forall(lambda k: (implies(And(0 <= k, k < w), And(i.is_(5 + 2 * k, STR, wd(k)), i.is_(6 + 2 * k, NL))), wd(k))),
               i.is_(p, INT, order), i.is_(p + 1, SP), i.is_(p + 2, INT, nodes), i.is_(p + 3, NL),
               forall(lambda k: (implies(And(0 <= k, k < order), And(i.is_(q + 2 * k, INT, cnt(k)), i.is_(q + 2 * k + 1, NL))), cnt(k))),
               i.is_(q + 2 * order, BLOCK, 16 * nodes))


def typeid(c, t):
    """the name of the type: 0 back-off, otherwise interpolated"""
    return If(t == 0, strmap.strlit(c.eng, 'backoff'), strmap.strlit(c.eng, 'interpolated'))


def log(c):
    return recio.Log(c)


def out_prefix(c, pos):
    pass


NW = lambda c: voc(c).n
CNT = lambda c: (lambda k: tg(c).m_order_count[k])
WD = lambda c: (lambda k: voc(c).word(k))


def written_words(c, n):
    i, w = log(c), WD(c)
    return And(i.is_(0, STR, fmtid(c)), i.is_(1, STR, typeid(c, tg(c).m_type)), i.is_(2, NL), i.is_(3, INT, NW(c)), i.is_(4, NL),
               forall(lambda k: (implies(And(0 <= k, k < n), And(i.is_(5 + 2 * k, STR, w(k)), i.is_(6 + 2 * k, NL))), w(k))))


def written_counts(c, n):
    i = log(c)
    p = end_words(NW(c))
    return And(written_words(c, NW(c)), i.is_(p, INT, tg(c).m_order), i.is_(p + 1, SP), i.is_(p + 2, INT, tg(c).m_nodes.size),
               i.is_(p + 3, NL), forall(lambda k: (implies(And(0 <= k, k < n), And(
                   i.is_(p + 4 + 2 * k, INT, CNT(c)(k)), i.is_(p + 5 + 2 * k, NL))), CNT(c)(k))))


def fld(c, o):
    return lambda j: getattr(tg(c).m_nodes[j], FIELDS[o])


def block_written(c):
    at = end_words(NW(c)) + 4 + 2 * tg(c).m_order

    def one(o, s):
        f = fld(c, o)
        return forall(lambda j: (implies(And(0 <= j, j < tg(c).m_nodes.size), recio.blockcell(c, at, j, o, s) == f(j)), f(j)))
    return And(*[one(o, s) for o, s in LEAVES])


write_real = Spec(
    'TreeGram::write_real(_IO_FILE*, bool)', unit=U,
    requires=[('little-endian machine', lambda c: big(c) == 0), ('vocabulary', vinv), ('at the start', lambda c: log(c).pos == 0),
              ('type', lambda c: And(tg(c).m_type >= 0, tg(c).m_type <= 1)),
              ('sizes', lambda c: And(tg(c).m_order >= 0, tg(c).m_order == tg(c).m_order_count.size, tg(c).m_nodes.size >= 1,
                                      tg(c).m_nodes.size < 2 ** 31, tg(c).m_order < 2 ** 20))],
    assigns=lambda c: [recio.ALLOUT],
    exits=lambda c: z3.BoolVal(True),
    ensures=[('layout of the file', lambda c: layout(log(c), fmtid(c), typeid(c, tg(c).m_type), NW(c), WD(c), tg(c).m_order,
                                                     tg(c).m_nodes.size, CNT(c))),
             ('content of the block', block_written),
             ('nothing else', lambda c: log(c).pos == end_words(NW(c)) + 5 + 2 * tg(c).m_order)],
    loops=[Loop([('words so far', lambda c: And(0 <= c.v('i'), c.v('i') <= NW(c), log(c).pos == 5 + 2 * c.v('i'),
                                               written_words(c, c.v('i'))))]),
           Loop([('counts so far', lambda c: And(0 <= c.v('i'), c.v('i') <= tg(c).m_order, log(c).pos == end_words(NW(c)) + 4 + 2 * c.v('i'),
                                                written_counts(c, c.v('i'))))])])

# ---------------------------------------------------------------- reading
INP = recio.Inp


def pos(c):
    return INP(c).pos


def distinct(w, n):
    return forall(lambda i, j: (implies(And(0 <= i, i < j, j < n), w(i) != w(j)), [(w(i), w(j))]))


LW = lambda k: recio.LINE(5 + 2 * k)


def words():
    return recio.ATOI(recio.LINE(z3.IntVal(3)))


SUMC = z3.Function('sum_of_counts', I, I, I)             # of the first k counts from an item on


def sumdef(c):
    """fold: sum of the numbers read as counts"""
    return And(forall(lambda q: (SUMC(q, 0) == 0, SUMC(q, 0))),
               forall(lambda q, k: (implies(k >= 0, SUMC(q, k + 1) == SUMC(q, k) + recio.NUM(q + 2 * k)), SUMC(q, k + 1))))


def order_in():
    return recio.NUM(end_words(words()))


def nodes_in():
    return recio.NUM(end_words(words()) + 2)


def typeok(c):
    l = recio.LINE(z3.IntVal(1))
    return Or(l == strmap.strlit(c.eng, 'backoff'), l == strmap.strlit(c.eng, 'interpolated'))


def words_ok(n):
    return forall(lambda k: (implies(And(0 <= k, k < n), recio.LOK(5 + 2 * k)), recio.LOK(5 + 2 * k)))


def counts_ok(n):
    q = end_words(words()) + 4
    return forall(lambda k: (implies(And(0 <= k, k < n), recio.SCANS(q + 2 * k, 1)), recio.SCANS(q + 2 * k, 1)))


def header_ok(c):
    """a complete and consistent header followed by all of its nodes"""
    w = words()
    p = end_words(w)
    q = p + 4
    s = SUMC(q, order_in())
    return And(typeok(c), recio.LOK(z3.IntVal(3)), w >= 1, words_ok(w), recio.SCANS(p, 2), nodes_in() >= 1, counts_ok(order_in()),
               Or(s == nodes_in(), s + 1 == nodes_in()), recio.BOK(q + 2 * order_in(), 16 * nodes_in()))


def loaded_words(c, n):
    """the words read so far, when they are all different"""
    v = voc(c)
    return implies(distinct(LW, words()), And(
        v.n == n, forall(lambda k: (implies(And(0 <= k, k < n), v.word(k) == LW(k)), v.word(k)))))


def loaded_nodes(c):
    at = end_words(words()) + 4 + 2 * order_in()

    def one(o, s):
        f = fld(c, o)
        return forall(lambda j: (implies(And(0 <= j, j < nodes_in()), f(j) == recio.blockfn(o, s)(at, j)), f(j)))
    return And(tg(c).m_nodes.size == nodes_in(), *[one(o, s) for o, s in LEAVES])


def loaded_counts(c, n):
    q = end_words(words()) + 4
    return forall(lambda k: (implies(And(0 <= k, k < n), CNT(c)(k) == recio.NUM(q + 2 * k)), CNT(c)(k)))


# the model that was written
M_TYPE, M_W, M_ORDER, M_NODES = z3.Ints('model_type model_words model_order model_nodes')
M_WD, M_CNT = z3.Function('model_word', I, I), z3.Function('model_count', I, I)


def written(c):
    """the stream is what write_real produces for that model"""
    q = end_words(M_W) + 4
    return And(layout(INP(c), fmtid(c), typeid(c, M_TYPE), M_W, M_WD, M_ORDER, M_NODES, M_CNT), recio.links(c), M_TYPE >= 0, M_TYPE <= 1,
               M_W >= 1, M_ORDER >= 0, M_NODES >= 1, distinct(M_WD, M_W),
               forall(lambda k: (implies(And(0 <= k, k < M_W), M_WD(k) == INP(c).a(5 + 2 * k)), LW(k))),
               forall(lambda k: (implies(And(0 <= k, k < M_ORDER), M_CNT(k) == INP(c).a(q + 2 * k)), recio.NUM(q + 2 * k))),
               Or(SUMC(q, M_ORDER) == M_NODES, SUMC(q, M_ORDER) + 1 == M_NODES))


def same_model(c):
    t = tg(c)
    return And(t.m_type == M_TYPE, t.m_order == M_ORDER, t.m_nodes.size == M_NODES)


def same_words(c):
    v = voc(c)
    return And(v.n == M_W, forall(lambda k: (implies(And(0 <= k, k < M_W), v.word(k) == M_WD(k)), v.word(k))))


def same_counts(c):
    return forall(lambda k: (implies(And(0 <= k, k < M_ORDER), CNT(c)(k) == M_CNT(k)), CNT(c)(k)))


def same_nodes(c):
    """the block read is the block written (item of the node block)"""
    at = end_words(M_W) + 4 + 2 * M_ORDER

    def one(o, s):
        f = fld(c, o)
        return forall(lambda j: (implies(And(0 <= j, j < M_NODES), f(j) == recio.blockfn(o, s)(at, j)), f(j)))
    return And(*[one(o, s) for o, s in LEAVES])


read = Spec(
    'TreeGram::read(_IO_FILE*, bool)', unit=U,
    requires=[('binary file', lambda c: c.a('binary')), ('at the start', lambda c: pos(c) == 0), ('little-endian machine', lambda c: big(c) == 0),
              ('vocabulary', vinv), ('sum of counts', sumdef),
              ('counts stay in range', lambda c: And(order_in() >= 0, order_in() < 2 ** 20, forall(
                  lambda q, k: (And(SUMC(q, k) > -2 ** 30, SUMC(q, k) < 2 ** 30, recio.NUM(q) < 2 ** 30, recio.NUM(q) > -2 ** 30), SUMC(q, k)))))],
    assigns=lambda c: [voc(c).ix, voc(c).ws, recio.INPOS] + [tg(c).loc(m) for m in ('m_type', 'm_order', 'm_order_count', 'm_nodes')],
    exits=lambda c: And(Not(header_ok(c)), Not(written(c))),
    ensures=[('only complete and consistent files are loaded', header_ok),
             ('type', lambda c: And(tg(c).m_type >= 0, tg(c).m_type <= 1, typeid(c, tg(c).m_type) == recio.LINE(z3.IntVal(1)))),
             ('vocabulary is consistent', vinv),
             ('words', lambda c: loaded_words(c, words())),
             ('order and counts', lambda c: And(tg(c).m_order == order_in(), tg(c).m_order_count.size == order_in(),
                                                loaded_counts(c, order_in()))),
             ('nodes', loaded_nodes)] + [
                 ('a written model is read back: ' + n, lambda c, f=f: implies(written(c), f(c)))
                 for n, f in (('type and sizes', same_model), ('words', same_words), ('counts', same_counts), ('nodes', same_nodes))],
    loops=[Loop([('vocabulary', vinv), ('position', lambda c: And(0 <= c.v('i'), c.v('i') <= words(), pos(c) == 5 + 2 * c.v('i'), c.v('words') == words(),
                                                                 words_ok(c.v('i')))),
                 ('words so far', lambda c: loaded_words(c, c.v('i')))]),
           Loop([('position', lambda c: And(0 <= c.v('i'), c.v('i') <= order_in(), tg(c).m_order == order_in(), tg(c).m_order_count.size == order_in(),
                                            pos(c) == end_words(words()) + 4 + 2 * c.v('i'), counts_ok(c.v('i')))),
                 ('counts so far', lambda c: And(loaded_counts(c, c.v('i')), c.v('sum') == SUMC(end_words(words()) + 4, c.v('i'))))])])

write = Spec(
    'TreeGram::write(_IO_FILE*, bool, %s)' % vocab.SIG.replace(' const&', ''), unit=U,
    requires=[('binary file', lambda c: c.a('binary'))] + write_real.requires, assigns=write_real.assigns,
    exits=lambda c: z3.BoolVal(True), ensures=write_real.ensures)
SPECS = [write_real, write, read]
CONTRACTS = vocab.SPECS + SPECS
TIMEOUT = 60


def configure(eng, s):
    eng.stl.rules[:0] = recio.RULES
    eng.blockleaves = LEAVES


HARNESS = 'c11.cc'
BOUNDED = ('random models of both types: written, read back and queried; every truncation point and header corruptions (type, words, nodes, '
           'counts), under the real stream functions')
BOUNDED_FUNCTIONS = ['TreeGram::flip_endian (big-endian machines only)']
DECIDES = ('write_real produces exactly one layout of items (type, vocabulary, sizes, counts, node block), nothing else; read consumes that layout: a '
           'written model comes back with the same type, words, order, counts and nodes and is never refused, and a file is loaded only if type, words, '
           'sizes, counts and the whole block are there and consistent')
NOTE = ('The stream functions of C and str::read_line/read_string deliver the items written (at the level of bytes: C22; number formats round-trip); '
        'the machine is little-endian; sums of counts stay in the range of int.')
