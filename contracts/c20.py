"""C20: perplexity accounting.

One call of logprob() is specified completely: the value, the history, every counter (step).  logprob_file
adds these up over the words of the stream (token t has value LPW(t), word value CW(t))."""
import z3
import spec, stl, strmap, vocab, charstr
from moc import P
from sym import Spec, Loop, Ptr, I, R
from spec import forall, implies, And, Or, Not, If, V

AR = z3.ArraySort(I, I)
LP = z3.Function('model_log_prob', I, AR, I, R)         # model (0, 1 for the second one), history, its length
LO = z3.Function('model_last_order', I, AR, I, I)
PFX = z3.Function('has_prefix', I, I, I, I)             # strncmp(literal, word, n)
X = z3.Int('some_pattern')
MB = z3.Function('is_morph', I, z3.BoolSort())          # word matches a morph boundary pattern
POW = z3.Function('pow', R, R, R)
LOG10 = z3.Function('log10', R, R)
NOEXIT = lambda c: z3.BoolVal(False)
U = 'PerplexityFuncs.cc'
STRS = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'


def pp(c):
    return c.obj('this', 'Perplexity')


def lmptr(c, m='m_lm'):
    p = pp(c).loc(m)
    return Ptr(p.region, p.path + ('D', 0), p.idx)


def lm(c, m='m_lm'):
    return c.obj(lmptr(c, m), 'NGram')


def two(c):
    p = pp(c).loc('m_lm2')
    return c.eng.cell(c.st, p.region, p.path + ('SET', 0), I) == 1


def voc(c, m='m_lm'):
    return vocab.voc(c, p=lmptr(c, m).off(8))


def vinv(c):
    return And(vocab.inv(c, p=lmptr(c).off(8)), voc(c).n >= 1)


def truth(x):
    return x if z3.is_bool(x) else x != 0


def b2i(b):
    return If(b, z3.IntVal(1), z3.IntVal(0))


def word(c):
    return strmap.cid(c.eng, c.st, c.a('word'))


def lit(c, s):
    return strmap.strlit(c.eng, s)


def index(c):
    w = word(c)
    return If(voc(c).has(w), voc(c).val(w), 0)


def hist(c):
    h = pp(c).history
    p = spec.velem(pp(c).loc('history'), 4, z3.IntVal(0))
    a = c.eng.cell(c.st, p.region, p.path, I)
    return a, h.size


def order(c):
    return lm(c).m_order


def hits(c, i):
    return pp(c).ngram_hits[i]


def member(c, v, x, k='f'):
    """x occurs in the vector"""
    i = z3.Int('occurrence')
    return z3.Exists([i], And(0 <= i, i < v.size, v[i] == x))


INCCS = z3.Function('is_context_cue', I, z3.BoolSort())
INWB = z3.Function('is_listed', I, z3.BoolSort())


def listdef(c, v, f):
    """f is membership in the list"""
    j = z3.Function('position_in_' + f.name(), I, I)
    return And(forall(lambda i: (implies(And(0 <= i, i < v.size), f(v[i])), v[i])),
               forall(lambda x: (implies(f(x), And(0 <= j(x), j(x) < v.size, v[j(x)] == x)), f(x))))


def ends_word(c, i):
    t = pp(c).m_wb_type
    return Or(t == 0, And(t == 1, INWB(i)), And(t == 2, Not(MB(voc(c).word(i)))))


WF = [('vocabulary of the model', vinv),
      ('listed words', lambda c: And(listdef(c, pp(c).ccs_vector, INCCS), listdef(c, pp(c).wb_vector, INWB))),
      ('kind of word boundary', lambda c: And(pp(c).m_wb_type >= 0, pp(c).m_wb_type <= 2)),
      ('sizes', lambda c: And(order(c) >= 1, order(c) < 2 ** 20, hist(c)[1] >= 0, hist(c)[1] <= order(c),
                              pp(c).ngram_hits.size == order(c) + 1, pp(c).m_cur_init_hist >= 0, pp(c).m_init_hist >= 0))]


# ---------------------------------------------------------------- word boundaries
is_wb = Spec(
    'Perplexity::is_wb(int)', unit=U, requires=WF[:3] + [('known word', lambda c: And(c.a('idx') >= 0, c.a('idx') < voc(c).n))],
    assigns=lambda c: [], exits=NOEXIT, ensures=[('ends a word', lambda c: truth(c.result) == ends_word(c, c.a('idx')))])

is_mb_c = Spec(
    'Perplexity::is_mb(%s)' % STRS, unit=U, trusted=True, assigns=lambda c: [], exits=NOEXIT,
    ensures=[('matches a pattern', lambda c: truth(c.result) == And(pp(c).m_wb_type == 2, MB(strmap.sidp(c.eng, c.st, P(c, 1)))))])

# ---------------------------------------------------------------- the model
lp_c = Spec(
    'NGram::log_prob(std::deque<int, std::allocator<int>> const&)', unit=U, trusted=True,
    requires=[('not empty', lambda c: gsize(c) > 0)],
    assigns=lambda c: [c.obj('this', 'NGram').loc('m_last_order')], exits=NOEXIT,
    ensures=[('value for the history', lambda c: c.result == LP(which(c), *gram(c))),
             ('order', lambda c: And(mlast(c) == LO(which(c), *gram(c)), mlast(c) >= 0, mlast(c) <= morder(c)))])


def mlast(c):
    return c.obj('this', 'NGram').m_last_order


def morder(c):
    return c.obj('this', 'NGram').m_order


def which(c):
    p = c.a('this')
    mem = c.eng.mod.di_members(c.eng.mod.find_di_type('Perplexity'))
    return z3.IntVal({mem['m_lm'][0]: 0, mem['m_lm2'][0]: 1}.get(p.path[0], -1))


def gram(c):
    p = spec.velem(c.a('gram'), 4, z3.IntVal(0))
    return c.eng.cell(c.st, p.region, p.path, I), gsize(c)


def gsize(c):
    return stl.get_size(c.eng, c.st, c.a('gram'))


# ---------------------------------------------------------------- one token
class Step:
    """what one token does, from the state before"""

    def __init__(s, c):
        o = c.old
        p = pp(o)
        s.W = word(o)
        s.idx = index(o)
        s.init, s.cur = p.m_init_hist, p.m_cur_init_hist
        s.restart = And(s.cur != 0, s.cur == s.init)
        s.warm = s.cur > 0                                   # still in the initial history
        s.skipu = truth(p.m_skip_unk_prob)
        t = p.m_wb_type
        s.unk = And(Not(s.warm), s.idx == 0)
        s.end = And(Not(s.warm), PFX(lit(c, '</s>'), s.W, 4) == 0)
        s.lone = And(s.unk, t == 2, Not(MB(s.W)))            # an unknown whole word among morphs
        s.dropu = And(s.unk, s.skipu)
        s.cue = And(Not(s.warm), Not(s.dropu), INCCS(s.idx))
        s.scored = And(Not(s.warm), Not(s.dropu), Not(s.cue))
        s.flag = Or(truth(p.m_unkflag), And(s.unk, Not(s.lone), t != 0))
        s.wb = ends_word(o, s.idx)
        s.wend = And(s.scored, s.wb)
        s.cw0 = If(s.lone, 0, p.m_cw_lpsum)                  # before the value of the token is added
        a, n = hist(c)
        one = LP(0, a, n)
        al = p.m_alpha
        q = al * POW(z3.RealVal(10), one) + (1 - al) * POW(z3.RealVal(10), LP(1, a, n))
        s.lp = If(two(o), If(q > z3.RealVal('1/1' + '0' * 60), LOG10(q), z3.RealVal(-60)), one)
        s.ord = LO(0, a, n)
        s.good = And(s.wend, Or(Not(s.flag), Not(s.skipu)))  # a word that is counted


def counters(c):
    s, p, o = Step(c), pp(c), pp(c.old)
    return And(
        p.m_num_tunks == o.m_num_tunks + b2i(s.unk),
        p.m_num_unks == o.m_num_unks + b2i(And(s.unk, Or(s.lone, o.m_wb_type == 0))) + b2i(And(s.wend, s.flag)),
        p.m_num_ccs == o.m_num_ccs + b2i(s.cue),
        p.m_num_ptokens == o.m_num_ptokens + b2i(s.scored),
        p.m_num_sent_ends == o.m_num_sent_ends + b2i(s.end),
        p.m_num_pwords == o.m_num_pwords + b2i(s.good) + b2i(And(s.warm, PFX(lit(c, '<s>'), s.W, 3) != 0, s.wb)),
        p.m_cur_init_hist == If(s.warm, o.m_cur_init_hist - 1, If(s.end, o.m_init_hist, o.m_cur_init_hist)))


def history(c):
    s = Step(c)
    (a, n), (b, m) = hist(c), hist(c.old)
    full = m == order(c.old)
    base = If(s.restart, 0, If(full, m - 1, m))
    sh = If(And(full, Not(s.restart)), 1, 0)
    return And(n == base + 1, z3.Select(a, n - 1) == s.idx, forall(lambda k: (implies(
        And(0 <= k, k < base), z3.Select(a, k) == z3.Select(b, k + sh)), z3.Select(a, k))))


def hitcounts(c):
    s = Step(c)
    return forall(lambda k: (implies(And(0 <= k, k <= order(c.old)), hits(c, k) == hits(c.old, k) + b2i(
        And(s.scored, k == 0)) + b2i(And(s.scored, k == s.ord))), hits(c, k)))


def wordval(c):
    s, p, o = Step(c), pp(c), pp(c.old)
    out = c.ld(c.a('cur_word_lp'), 'float')
    return And(out == If(s.good, s.cw0 + s.lp, If(s.lone, o.m_cw_lpsum, z3.RealVal(0))),
               p.m_cw_lpsum == If(s.scored, If(s.wb, z3.RealVal(0), s.cw0 + s.lp), s.cw0),
               truth(p.m_unkflag) == If(s.wend, False, If(s.warm, truth(o.m_unkflag), s.flag)))


logprob = Spec(
    'Perplexity::logprob(char const*, float&)', unit=U, modular=False, requires=WF,
    assigns=lambda c: [c.a('cur_word_lp')] + [pp(c).loc(m) for m in (
        'history', 'ngram_hits', 'm_cur_init_hist', 'm_num_unks', 'm_num_tunks', 'm_num_ccs', 'm_num_pwords', 'm_num_ptokens',
        'm_num_sent_ends', 'm_unkflag', 'm_cw_lpsum')] + [lm(c).loc('m_last_order'), lm(c, 'm_lm2').loc('m_last_order')],
    exits=NOEXIT,
    ensures=[('value of the token', lambda c: c.result == If(Step(c).scored, Step(c).lp, z3.RealVal(0))),
             ('history', history), ('counters', counters), ('hits', hitcounts), ('value of the word', wordval),
             ('invariants kept', lambda c: WF[3][1](c)), ('order reported', lambda c: lm(c).m_last_order == If(Step(c).scored, Step(c).ord, 0))])

# ---------------------------------------------------------------- a whole text
TOKSID = z3.Function('token_id', I, I)
NTOK = z3.Int('number_of_tokens')
LPW, CW = z3.Function('token_value', I, R), z3.Function('word_value', I, R)
SLP, SCW = z3.Function('sum_of_token_values', I, R), z3.Function('sum_of_word_values', I, R)
TUN, NUN = z3.Function('unknown_tokens_before', I, I), z3.Function('unknown_words_before', I, I)


def pos(c):
    return c.eng.cell(c.st, '#text', ('POS', 0), I)


def r_fscanf(eng, st, args, info):
    p = eng.cell(st, '#text', ('POS', 0), I)
    eng.assumed.add('fscanf("%s"): delivers the words of the text one after another')
    a, b = st.copy(), st.copy()
    a.assume(p < NTOK)
    b.assume(p == NTOK)
    eng.note_write(('#text', ('POS', 0)))
    a.cells[('#text', ('POS', 0))] = p + 1
    q = Ptr(args[2].region, args[2].path + ('CSTR', 0), args[2].idx)
    eng.note_write((q.region, q.path))
    a.cells[(q.region, q.path)] = stl.nstore(eng.cell(a, q.region, q.path, I), q.idx, TOKSID(p))
    return [('ret', a, z3.IntVal(1)), ('ret', b, z3.IntVal(-1))]


STEPFRAME = logprob.assigns
token = Spec(
    logprob.fn, unit=U, trusted=True, name='Perplexity::logprob on token t of the text',
    requires=WF + [('the token read last', lambda c: And(pos(c) >= 1, word(c) == TOKSID(pos(c) - 1)))],
    assigns=STEPFRAME, exits=NOEXIT,
    ensures=[('values', lambda c: And(c.result == LPW(pos(c) - 1), c.ld(c.a('cur_word_lp'), 'float') == CW(pos(c) - 1))),
             ('unknown so far', lambda c: And(pp(c).m_num_tunks == TUN(pos(c)), pp(c).m_num_unks == NUN(pos(c)))),
             ('invariants kept', WF[3][1])])


def sums(c):
    return And(SLP(0) == 0, SCW(0) == 0, NTOK >= 0, forall(lambda t: (SLP(t + 1) == SLP(t) + LPW(t), SLP(t + 1))),
               forall(lambda t: (SCW(t + 1) == SCW(t) + CW(t), SCW(t + 1))))


def perp(c, m):
    return c.ld(pp(c).loc(m), 'double')


whole = Spec(
    'Perplexity::logprob_file(_IO_FILE*, _IO_FILE*, int)', unit=U,
    requires=WF + [('a text', lambda c: And(pos(c) == 0, sums(c), NTOK < 2 ** 30)),
              ('printing interval', lambda c: c.a('interval') >= 1),
              ('unknown so far', lambda c: And(pp(c).m_num_tunks == TUN(0), pp(c).m_num_unks == NUN(0)))],
    assigns=lambda c: [pp(c).loc(m) for m in (
        'history', 'ngram_hits', 'm_cur_init_hist', 'm_num_unks', 'm_num_tunks', 'm_num_ccs', 'm_num_pwords', 'm_num_ptokens',
        'm_num_sent_ends', 'm_unkflag', 'm_cw_lpsum', 'm_logprob', 'm_word_logprob', 'm_perplexity', 'm_token_perplexity',
        'm_perplexity_wo_sent_ends')] + [lm(c).loc('m_last_order'), lm(c, 'm_lm2').loc('m_last_order'), Ptr('#text', ('POS', 0))],
    exits=NOEXIT,
    ensures=[('sum of the token values', lambda c: And(pp(c).m_logprob == pp(c.old).m_logprob + SLP(NTOK), c.result == pp(c).m_logprob)),
             ('sum of the word values', lambda c: pp(c).m_word_logprob == pp(c.old).m_word_logprob + SCW(NTOK) + pp(c).m_cw_lpsum),
             ('averages', lambda c: And(pp(c).m_perplexity == pp(c).m_word_logprob / z3.ToReal(pp(c).m_num_pwords),
                                        pp(c).m_perplexity_wo_sent_ends == pp(c).m_word_logprob / z3.ToReal(
                                            pp(c).m_num_pwords - pp(c).m_num_sent_ends),
                                        pp(c).m_token_perplexity == pp(c).m_logprob / z3.ToReal(pp(c).m_num_ptokens))),
             ('unknown words', lambda c: If(pp(c).m_wb_type == 0, And(pp(c).m_num_unks == TUN(NTOK), pp(c).m_num_tunks == 0),
                                            And(pp(c).m_num_unks == NUN(NTOK), pp(c).m_num_tunks == TUN(NTOK))))],
    loops=[Loop([('invariants', WF[3][1]), ('sums so far', lambda c: And(
        pos(c) >= 0, pos(c) <= NTOK, c.v('read') == pos(c), pp(c).m_logprob == pp(c.old).m_logprob + SLP(pos(c)),
        pp(c).m_word_logprob == pp(c.old).m_word_logprob + SCW(pos(c)),
        pp(c).m_num_tunks == TUN(pos(c)), pp(c).m_num_unks == NUN(pos(c))))])])


# ---------------------------------------------------------------- morph boundary patterns (contents of strings)
def pats(c):
    return V(c.eng, c.st, pp(c).loc('mb_vector'), c.eng.mod.find_di_type(
        'vector<%s, std::allocator<%s > >' % ((STRS[:-1] + ' >',) * 2)))


def pat(c, i):
    return stl.velem(pp(c).loc('mb_vector'), 32, i)


def ln(c, p):
    return stl.get_size(c.eng, c.st, p)


def ch(c, p, i):
    return z3.Select(charstr.content(c.eng, c.st, p), i)


def matches(c, i):
    """^abc: the word begins with abc; abc$: it ends with abc"""
    p, w = pat(c, i), P(c, 1)
    n, m = ln(c, p) - 1, ln(c, w)
    head = And(ch(c, p, 0) == 94, n <= m, forall(lambda j: (implies(And(1 <= j, j <= n), ch(c, p, j) == ch(c, w, j - 1)), ch(c, p, j))))
    tail = And(ch(c, p, 0) != 94, ch(c, p, n) == 36, n <= m,
               forall(lambda j: (implies(And(0 <= j, j < n), ch(c, p, j) == ch(c, w, m - n + j)), ch(c, p, j))))
    return Or(head, tail)


MATCH = z3.Function('pattern_matches', I, z3.BoolSort())


def mdef(c):
    n = pats(c).size
    return forall(lambda i: (implies(And(0 <= i, i < n), MATCH(i) == matches(c, i)), MATCH(i)))


def itpos(c, n):
    v = c.v(n)
    if not isinstance(v, Ptr):
        return v
    return (c.eng.loadptr(c.st, v) if len(v.path) < 3 else v).idx[-1]


is_mb = Spec(
    is_mb_c.fn, unit=U, modular=False, name='Perplexity::is_mb', exits=NOEXIT, assigns=lambda c: [],
    requires=[('patterns are not empty', lambda c: And(pats(c).size >= 0, forall(lambda i: (implies(
        And(0 <= i, i < pats(c).size), And(ln(c, pat(c, i)) >= 1, ln(c, pat(c, i)) < 2 ** 30)), ln(c, pat(c, i)))))),
        ('length', lambda c: And(ln(c, P(c, 1)) >= 0, ln(c, P(c, 1)) < 2 ** 30)),
        ('definition of matching', mdef)],
    ensures=[('some pattern matches', lambda c: truth(c.result) == And(pp(c).m_wb_type == 2, z3.Exists([X], And(
        0 <= X, X < pats(c).size, MATCH(X)))))],
    loops=[Loop([('no pattern so far', lambda c: And(itpos(c, 'itr') >= 0, itpos(c, 'itr') <= pats(c).size, forall(
        lambda i: (implies(And(0 <= i, i < itpos(c, 'itr')), Not(MATCH(i))), MATCH(i)))))])])

get_hitorder = Spec('Perplexity::get_hitorder(int)', unit=U, requires=[('an order', lambda c: And(c.a('i') >= 0, pp(c).ngram_hits.size >= 0))],
                    assigns=lambda c: [], exits=NOEXIT, ensures=[('hits of that order', lambda c: c.result == If(
                        c.a('i') < pp(c).ngram_hits.size, hits(c, c.a('i')), 0))])
reset_hitrates = Spec('Perplexity::reset_hitrates()', unit=U, requires=[WF[3]], assigns=lambda c: [pp(c).loc('ngram_hits')], exits=NOEXIT,
                      ensures=[('no hits', lambda c: And(pp(c).ngram_hits.size == order(c) + 1, forall(lambda k: (implies(
                          And(0 <= k, k <= order(c)), hits(c, k) == 0), hits(c, k)))))])

SPECS = [get_hitorder, reset_hitrates, is_wb, is_mb_c, is_mb, lp_c, token, logprob, whole, vocab.word_index, vocab.word]


# ---------------------------------------------------------------- rules
def arrow(eng, st, args, info):
    eng.assumed.add('std::shared_ptr')
    p = args[0]
    return stl.ret(st, Ptr(p.region, p.path + ('D', 0), p.idx))


def isset(eng, st, args, info):
    p = args[0]
    return stl.ret(st, eng.cell(st, p.region, p.path + ('SET', 0), I) == 1)


def find(eng, st, args, info):
    """std::find over ints: the first position with the value, or the end"""
    eng.assumed.add('std::find')
    first, last, x = args
    if not (first.region == last.region and first.path == last.path):
        raise stl.Unsupported('std::find')
    st = st.copy()
    v = eng.load(st, x, ('i', 32)) if isinstance(x, Ptr) else x
    k = eng.fresh('found')
    b, e = first.idx[-1], last.idx[-1]
    a = lambda i: eng.load(st, Ptr(first.region, first.path, first.idx[:-1] + (i,)), ('i', 32))
    j = z3.Int('j?%s' % k.decl().name())
    st.assume(And(b <= k, k <= e, implies(k < e, a(k) == v)))
    st.assume(z3.ForAll([j], implies(And(b <= j, j < k), a(j) != v), patterns=[a(j)]))
    return stl.ret(st, Ptr(first.region, first.path, first.idx[:-1] + (k,)))


def strncmp(eng, st, args, info):
    eng.assumed.add('strncmp')
    a, b = strmap.cid(eng, st, args[0]), strmap.cid(eng, st, args[1])
    return stl.ret(st, PFX(a, b, args[2]))


def configure(eng, s):
    strmap.STRDESC = charstr.DESC if s is is_mb else IDDESC
    if s is is_mb:
        charstr.install(eng)
        return
    eng.stl.rules[:0] = [(r'.*std::__shared_ptr_access<NGram,.*operator->', arrow), (r'.*std::__shared_ptr<NGram,.*operator bool', isset),
                         (r'.*std::find<__gnu_cxx::__normal_iterator<int', find), (r'strncmp$', strncmp),
                         (r'^(__isoc\d+_)?fscanf$', r_fscanf)]


IDDESC = strmap.STRDESC
HARNESS = 'c20.cc'
BOUNDED = 'random texts over random models (one or two), all word boundary kinds, unknown words, context cues, initial histories, tree and hash models'
DECIDES = ('logprob: value, history, every counter, hits and word value of one token, from any state; logprob_file: sums over the text, averages, '
           'unknown words; is_wb, is_mb, get_hitorder, reset_hitrates')
NOTE = ('The value of the model for a history and the order it reports are uninterpreted functions of the contents of the history '
        '(C07, C08, C13 define them); strncmp, std::find and fscanf("%s") are assumed contracts; in logprob_file the values of token t '
        'are named LPW(t), CW(t) (the call contract that names them is trusted, its substance is proved for logprob). ')
BOUNDED_FUNCTIONS = ['Perplexity constructors (loading of lists)', 'Perplexity::sentence_logprob (strtok)', 'Perplexity::print_results']
