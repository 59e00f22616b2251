"""C19: a mixture of models is the weighted average of their probabilities."""
import z3
import spec, stl, tree
from moc import P
from sym import Spec, Loop, Ptr, I, R
from spec import forall, implies, And, Or, Not, If, V

U = 'unit:inter.cc'
GT = 'std::deque<int, std::allocator<int>> const&'
LP = z3.Function('component_log_prob', I, R)              # component -> value of its log_prob for the gram
BI = z3.Function('component_bigram', I, I, I, R)          # component, previous word, word
POW = z3.Function('pow', R, R, R)
SUM = z3.Function('mixture_sum', I, R)                    # components before k
BSUM = z3.Function('mixture_bigram_sum', I, I, R)         # components before k, next word


def typ(c, t):
    return c.eng.mod.find_di_type('vector<%s, std::allocator<%s> >' % (t, t))


def it(c):
    return c.obj('this', 'InterTreeGram')


def coeff(c, i):
    return it(c).m_coeffs[i]


def nm(c):
    return it(c).m_models.size


def p10(x):
    return POW(z3.RealVal(10), x)


def safelog(x):
    f = z3.Function('log10', R, R)
    return If(x > z3.RealVal('1/' + '1' + '0' * 60), f(x), z3.RealVal(-60))


def index(c):
    """position of the component this call is made on"""
    p = c.a('this')
    return p.idx[-1] if p.idx else z3.IntVal(-1)


def sizes(c):
    return And(nm(c) >= 0, nm(c) < 2 ** 31, nm(c) == it(c).m_coeffs.size)


def sum_def(c):
    return And(SUM(0) == 0, forall(lambda k: (implies(And(0 <= k, k < nm(c)), SUM(k + 1) == SUM(k) + coeff(c, k) * p10(LP(k))),
                                              SUM(k + 1))))


def same_gram(c):
    """the argument is the gram the mixture was asked for"""
    p = c.a('gram')
    return z3.BoolVal(p.region == 'gram' and not p.idx)


comp = Spec(
    'NGram::log_prob(%s)' % GT, unit=U, trusted=True, requires=[('the gram asked for', same_gram)],
    assigns=lambda c: [], exits=lambda c: z3.BoolVal(False),
    ensures=[('value of the component', lambda c: c.result == LP(index(c)))])

log_prob = Spec(
    'InterTreeGram::log_prob(%s)' % GT, unit=U,
    requires=[('one weight per model', sizes), ('definition of the sum', sum_def)],
    assigns=lambda c: [], exits=lambda c: z3.BoolVal(False),
    ensures=[('weighted average', lambda c: c.result == safelog(SUM(nm(c))))],
    loops=[Loop([('sum so far', lambda c: And(c.v('i') >= 0, c.v('i') <= nm(c), c.v('prob') == SUM(c.v('i'))))])])


# ---------------------------------------------------------------- the component behind the value
def dispatch(eng, args, names, st):
    p = args[names.index('this')]
    eng.ptrinfo[(p.region, p.path)] = 'vtable:_ZTV8TreeGram'
    return args


def enum(c, n):
    return {'BACKOFF': 0, 'INTERPOLATED': 1}[n]


def wf_tree(c):
    return And(*[f(c) for n, f in tree.log_prob_bo.requires + tree.log_prob_i.requires])


disp = Spec(
    'NGram::log_prob(%s)' % GT, unit=U, modular=False, name='NGram::log_prob(Gram) of a tree model', ptrs=dispatch,
    requires=[('well-formed tree', wf_tree), ('type', lambda c: Or(tree.tg(c).m_type == 0, tree.tg(c).m_type == 1))],
    assigns=lambda c: [tree.tg(c).loc('m_fetch_stack'), tree.tg(c).loc('m_last_order')], exits=lambda c: z3.BoolVal(False),
    ensures=[('the recursion of the type of the model', lambda c: c.result == If(
        tree.tg(c).m_type == 0, tree.BO(0), safelog(tree.IP(tree.minlen(c)))))])


# ---------------------------------------------------------------- look-ahead
def nxt(c):
    return V(c.eng, c.st, c.a('next_word_id'), typ(c, 'int'))


def res(c, n='result_buffer'):
    return V(c.eng, c.st, c.a(n), typ(c, 'float'))


def lvec(c, n, t):
    return V(c.eng, c.st, c.v(n), typ(c, t))


def lists(c):
    return And(nxt(c).size >= 0, nxt(c).size < 2 ** 31 - 1, res(c).size >= nxt(c).size, res(c).size < 2 ** 31 - 1)


def filled(c, f):
    return forall(lambda k: (implies(And(0 <= k, k < nxt(c).size), res(c)[k] == f(nxt(c)[k])), res(c)[k]))


def bsum_def(c):
    w = c.a('prev_word_id')
    return And(forall(lambda q: (BSUM(0, q) == 0, BSUM(0, q))), forall(lambda k, q: (implies(
        And(0 <= k, k < nm(c)), BSUM(k + 1, q) == BSUM(k, q) + coeff(c, k) * p10(BI(k, w, q))), BSUM(k + 1, q))))


cbigram = Spec(
    'TreeGram::fetch_bigram_list(int, std::vector<int, std::allocator<int>>&, std::vector<float, std::allocator<float>>&)',
    unit=U, trusted=True, requires=[('lists', lists)],
    assigns=lambda c: [c.a('result_buffer')], exits=lambda c: z3.BoolVal(False),
    ensures=[('values of the component', lambda c: And(res(c).size == res(c.old).size, filled(
        c, lambda w: BI(index(c), c.a('prev_word_id'), w))))])

bigram = Spec(
    'InterTreeGram::fetch_bigram_list(int, std::vector<int, std::allocator<int>>&, std::vector<float, std::allocator<float>>&)',
    unit=U, requires=[('one weight per model', sizes), ('definition of the sum', bsum_def), ('lists', lists)],
    assigns=lambda c: [c.a('result_buffer')], exits=lambda c: z3.BoolVal(False),
    ensures=[('each element is the weighted average', lambda c: filled(c, lambda w: safelog(BSUM(nm(c), w)))),
             ('the list keeps its size', lambda c: res(c).size == res(c.old).size)],
    loops=[
        Loop([('sizes', lambda c: And(lvec(c, 'cresbuf', 'float').size == res(c.old).size,
                                      lvec(c, 'probs', 'double').size == res(c.old).size)),
              ('sums so far', lambda c: And(c.v('i') >= 0, c.v('i') <= nm(c), forall(lambda k: (implies(
                  And(0 <= k, k < nxt(c).size), lvec(c, 'probs', 'double')[k] == BSUM(c.v('i'), nxt(c)[k])),
                  lvec(c, 'probs', 'double')[k]))))]),
        Loop([('sizes', lambda c: And(lvec(c, 'cresbuf', 'float').size == res(c.old).size,
                                      lvec(c, 'probs', 'double').size == res(c.old).size)),
              ('added so far', lambda c: And(
                  c.v('j') >= 0, c.v('j') <= res(c).size, c.v('i') >= 0, c.v('i') < nm(c),
                  forall(lambda k: (implies(And(0 <= k, k < nxt(c).size), lvec(c, 'cresbuf', 'float')[k] == BI(
                      c.v('i'), c.a('prev_word_id'), nxt(c)[k])), lvec(c, 'cresbuf', 'float')[k])),
                  forall(lambda k: (implies(And(0 <= k, k < nxt(c).size), lvec(c, 'probs', 'double')[k] == If(
                      k < c.v('j'), BSUM(c.v('i') + 1, nxt(c)[k]), BSUM(c.v('i'), nxt(c)[k]))),
                      lvec(c, 'probs', 'double')[k]))))]),
        Loop([('done so far', lambda c: And(
            c.v('j') >= 0, c.v('j') <= res(c).size, res(c).size == res(c.old).size,
            forall(lambda k: (implies(And(0 <= k, k < nxt(c).size, k < c.v('j')), res(c)[k] == safelog(
                BSUM(nm(c), nxt(c)[k]))), res(c)[k]))))])])

# ---------------------------------------------------------------- constructor
CSUM = z3.Function('weight_sum', I, R)


def cv(c):
    return V(c.eng, c.st, c.a('coeffs'), typ(c, 'float'))


def names(c):
    return V(c.eng, c.st, c.a('lm_names'), c.eng.mod.find_di_type(
        'vector<%s, std::allocator<%s > >' % ((STR[:-1] + ' >',) * 2)))


def csum_def(c):
    return And(CSUM(0) == 0, forall(lambda k: (implies(And(0 <= k, k < cv(c).size), CSUM(k + 1) == CSUM(k) + cv(c)[k]),
                                               CSUM(k + 1))))


def bad(c):
    s = CSUM(cv(c).size)
    return Or(names(c).size != cv(c).size, s < z3.RealVal('0.99'), s > z3.RealVal('1.01'))


def pos(c, n):
    """position of an iterator (or the value of an index)"""
    v = c.v(n)
    if not isinstance(v, Ptr):
        return v
    if not v.path or len(v.path) < 3:
        v = c.eng.loadptr(c.st, v)
    return v.idx[-1]


def csum_inv(c):
    j = pos(c, 'j')
    return And(j >= 0, j <= cv(c).size, c.v('coeff_sum') == CSUM(j))


def kept(c):
    return And(it(c).m_coeffs.size == cv(c).size, forall(lambda k: (
        implies(And(0 <= k, k < cv(c).size), coeff(c, k) == cv(c)[k]), coeff(c, k))))


def ext(fn, assigns, **k):
    return Spec(fn, unit=U, trusted=True, assigns=assigns, **k)


STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
EXT = [
    ext('NGram::NGram()', lambda c: [P(c, 0)]),
    ext('TreeGram::TreeGram()', lambda c: [P(c, 0)]),
    ext('ArpaReader::ArpaReader(Vocabulary*)', lambda c: [P(c, 0)]),
    ext('ArpaReader::read_header(_IO_FILE*, bool&, %s&)' % STR, lambda c: [P(c, 0), P(c, 2), P(c, 3)]),
    ext('ArpaReader::next_gram(_IO_FILE*, %s&, std::vector<int, std::allocator<int>>&, float&, float&)' % STR,
        lambda c: [P(c, 0), P(c, 2), P(c, 3), P(c, 4), P(c, 5)]),
    ext('ArpaReader::~ArpaReader()', lambda c: [P(c, 0)]),
    ext('io::Stream::Stream(%s, %s, io::SeekType, bool)' % (STR, STR), lambda c: [P(c, 0)]),
    ext('io::Stream::~Stream()', lambda c: [P(c, 0)]),
    ext('Vocabulary::copy_vocab_to(Vocabulary&)', lambda c: [P(c, 1)]),
    ext('TreeGramArpaReader::read(_IO_FILE*, TreeGram*, bool)', lambda c: [P(c, 2)]),
]

ctor = Spec(
    name='InterTreeGram::InterTreeGram', fn=
    'InterTreeGram::InterTreeGram(std::vector<%s, std::allocator<%s>>, std::vector<float, std::allocator<float>>)' % (STR, STR),
    unit=U, requires=[('sizes', lambda c: And(cv(c).size >= 0, cv(c).size < 2 ** 31, names(c).size >= 0, names(c).size < 2 ** 31)),
                      ('definition of the sum', csum_def)],
    assigns=lambda c: [it(c).loc('m_models'), it(c).loc('m_coeffs'), it(c).loc('m_order')],
    exits=bad,
    ensures=[('one model per weight', sizes), ('bad weights are refused', lambda c: Not(bad(c.old))),
             ('weights kept', lambda c: And(it(c).m_coeffs.size == cv(c).size, forall(lambda k: (
        implies(And(0 <= k, k < cv(c).size), coeff(c, k) == cv(c)[k]), coeff(c, k)))))],
    loops=[Loop([('sum so far', csum_inv)]), Loop([('weights', kept), ('no models yet', lambda c: nm(c) == 0)]),
           Loop([('weights', kept), ('no models yet', lambda c: nm(c) == 0)]), Loop([('weights', kept), ('one model per name', lambda c: And(
               nm(c) == pos(c, 'it'), nm(c) <= names(c).size))]),
           Loop([('weights', kept), ('one model per name', lambda c: And(nm(c) == pos(c, 'it'), nm(c) < names(c).size))])])


# ---------------------------------------------------------------- the two models of perplexity evaluation
# a shared pointer is the identity of its model; ORDERS: the order of each model
NEW = z3.IntVal(-7)
ORDERS = ('#models', (('ORDER', 1), 0))


def pid(c, m):
    p = c.obj('this', 'Perplexity').loc(m)
    return c.eng.cell(c.st, p.region, p.path + ('ID', 0), I)


def order_of(c, i):
    return z3.Select(c.eng.cell(c.st, ORDERS[0], ORDERS[1], I), i)


def model_of(p):
    """the cell with the identity of the model behind a pointer"""
    path = p.path[:p.path.index('D')] if 'D' in p.path else p.path
    return p.region, path + ('ID', 0)


def sp_new(eng, st, args, info):
    eng.assumed.add('std::shared_ptr')
    st = st.copy()
    k = (args[0].region, args[0].path + ('ID', 0))
    eng.note_write(k)
    st.cells[k] = NEW
    q = Ptr(args[0].region, args[0].path + ('D', 0))
    for g in range(2):
        eng.ptrinfo[(q.region, q.off(8 * g).path)] = 'vtable:_ZTV10HashGram_tIiE+%d' % g
    return stl.ret(st, None)


def sp_copy(eng, st, args, info):
    st = st.copy()
    k = (args[0].region, args[0].path + ('ID', 0))
    eng.note_write(k)
    st.cells[k] = eng.cell(st, args[1].region, args[1].path + ('ID', 0), I)
    return stl.ret(st, args[0])


def sp_arrow(eng, st, args, info):
    p = args[0]
    return stl.ret(st, Ptr(p.region, p.path + ('D', 0), p.idx))


def m_order(eng, st, args, info):
    k = model_of(args[0])
    return stl.ret(st, z3.Select(eng.cell(st, ORDERS[0], ORDERS[1], I), eng.cell(st, k[0], k[1], I)))


def m_read(eng, st, args, info):
    """reading a model sets its order"""
    st = st.copy()
    k = model_of(args[0])
    a = eng.cell(st, ORDERS[0], ORDERS[1], I)
    o = eng.fresh('order_read', I)
    st.assume(z3.And(o >= 0, o < 2 ** 20))
    eng.note_write(ORDERS)
    st.cells[ORDERS] = z3.Store(a, eng.cell(st, k[0], k[1], I), o)
    return stl.ret(st, None)


def m_any(lo):
    def f(eng, st, args, info):
        st = st.copy()
        r = eng.fresh('any', I)
        st.assume(z3.And(r >= lo, r < 2 ** 31))
        return stl.ret(st, r)
    return f


def m_word(eng, st, args, info):
    """word(i): the name of a word, returned in a string"""
    st = st.copy()
    if info.get('retattr') is None or len(args) > 2:
        import strmap
        strmap.setsid(eng, st, args[0], eng.fresh('name', I))
        return stl.ret(st, None)
    return stl.ret(st, Ptr('#name%d' % next(eng.fresh_n)))


def nothing(eng, st, args, info):
    return stl.ret(st, None)


SP = [(r'.*std::make_shared<', sp_new), (r'.*std::shared_ptr<NGram>::operator=', sp_copy), (r'.*operator->\(\)', sp_arrow),
      (r'.*std::shared_ptr<.*~shared_ptr', nothing), (r'NGram::order\(', m_order), (r'.*HashGram_t<int>::read\(', m_read), (r'.*HashGram_t<int>::read_real\(', m_read),
      (r'Vocabulary::num_words\(', m_any(0)), (r'Vocabulary::add_word\(', m_any(0)), (r'Vocabulary::word', m_word), (r'io::Stream::', nothing)]


def al(c):
    return c.obj('this', 'Perplexity').m_alpha


setip = Spec(
    'Perplexity::set_interpolation(%s)' % STR, unit='PerplexityFuncs.cc', exits=lambda c: z3.BoolVal(False),
    requires=[('a first model', lambda c: And(pid(c, 'm_lm') >= 0, order_of(c, pid(c, 'm_lm')) >= 0, order_of(c, pid(c, 'm_lm')) < 2 ** 20,
              c.obj('this', 'Perplexity').ngram_hits.size > order_of(c, pid(c, 'm_lm'))))],
    assigns=lambda c: [c.obj('this', 'Perplexity').loc(x) for x in ('m_lm', 'm_lm2', 'm_alpha', 'ngram_hits')] + [Ptr(*ORDERS)] + [
        Ptr(c.a('this').region, c.obj('this', 'Perplexity').loc(x).path + ('ID', 0)) for x in ('m_lm', 'm_lm2')],
    ensures=[('the weight stays with the first model', lambda c: Or(
        And(pid(c, 'm_lm') == pid(c.old, 'm_lm'), pid(c, 'm_lm2') == NEW, al(c) == al(c.old)),
        And(pid(c, 'm_lm') == NEW, pid(c, 'm_lm2') == pid(c.old, 'm_lm'), al(c) == 1 - al(c.old)))),
             ('the longer model is asked first', lambda c: order_of(c, pid(c, 'm_lm')) >= order_of(c, pid(c, 'm_lm2'))),
             ('a hit counter for every order', lambda c: c.obj('this', 'Perplexity').ngram_hits.size > order_of(c, pid(c, 'm_lm')))],
    loops=[Loop([]), Loop([]), Loop([])])


def push_rule(eng, st, args, info):
    """appending to the list of components (its elements are not used afterwards)"""
    eng.assumed.add('std::vector::push_back')
    st = st.copy()
    stl.set_size(eng, st, args[0], stl.get_size(eng, st, args[0]) + 1)
    return stl.ret(st, None)


def configure(eng, s):
    if s is setip:
        eng.stl.rules[:0] = SP
        return
    if s is ctor:
        eng.stl.rules.append((r'std::vector<TreeGram\*, std::allocator<TreeGram\*>>::push_back', push_rule))


SPECS = [tree.log_prob_bo, tree.log_prob_i, tree.fetch_gram, tree.find_child, tree.binary_search, comp, log_prob, disp, cbigram,
         bigram, ctor, setip] + EXT
HARNESS = 'c19.cc'
BOUNDED = 'random mixtures of 1-4 ARPA models (back-off and interpolated), random n-grams, look-ahead lists, refused weight vectors'
DECIDES = 'log_prob = floored logarithm of the weighted sum, dispatch to the recursion of the component type, look-ahead lists, weight checks of the constructor; set_interpolation keeps the weight with the first model and asks the longer model first'
NOTE = ('The value of a component is named by an uninterpreted function of its position (trusted contract of NGram::log_prob at the '
        'call in the mixture; the dispatch itself is proved separately against C07/C08). ')
BOUNDED_FUNCTIONS = ['reading of the component files in the constructor (ArpaReader, TreeGramArpaReader)']
