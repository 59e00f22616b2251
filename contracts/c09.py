"""C09: look-ahead lists agree with individual queries."""
import z3
import tree
from tree import tg, nsize, nwords, ci, wd, lp, bow, has_range, in_range, child
from sym import Spec, Loop, Ptr, I, R
from spec import forall, implies, And, Or, Not, If, V

VEC = 'std::vector<int, std::allocator<int>>&, std::vector<float, std::allocator<float>>&'


def vec(c, name, t):
    for n, s in c.eng.mod.md.items():
        if 'DICompositeType' in s and ('name: "vector<%s, std::allocator<%s> >"' % (t, t)) in s:
            return V(c.eng, c.st, c.a(name), n)
    from ir import Unsupported
    raise Unsupported('no vector<%s>' % t)


def nxt(c):
    return vec(c, 'next_word_id', 'int')


def res(c):
    return vec(c, 'result_buffer', 'float')


def uni(c, w):
    return lp(c, w)


def bi(c, v, w):
    """back-off recursion for the bigram v w"""
    return If(child(v, w) >= 0, lp(c, child(v, w)), bow(c, v) + uni(c, w))


def tri(c, u, v, w):
    b = child(u, v)
    return If(b < 0, bi(c, v, w), If(child(b, w) >= 0, lp(c, child(b, w)), bow(c, b) + bi(c, v, w)))


def lists(c):
    return And(nxt(c).size >= 0, nxt(c).size < 2 ** 31 - 1, res(c).size >= nxt(c).size,
               forall(lambda i: (implies(And(0 <= i, i < nxt(c).size), And(nxt(c)[i] >= 0, nxt(c)[i] < nwords(c))), nxt(c)[i])))


def children(c):
    """children come after the unigrams and carry words of the vocabulary"""
    return And(forall(lambda p: (implies(And(0 <= p, p < nsize(c)), ci(c, p) >= -1), ci(c, p))),
               forall(lambda p: (implies(has_range(c, p), ci(c, p) >= nwords(c)), ci(c, p))),
               forall(lambda j: (implies(And(0 <= j, j < nsize(c)), And(wd(c, j) >= 0, wd(c, j) < nwords(c))), wd(c, j))))


def known(c, *names):
    return And(*[And(c.a(n) >= 0, c.a(n) < nwords(c)) for n in names])


def buf(c, w):
    return c.ld(c.v('lm_buf').step(4, w), 'float')


def filled(c, upto, f):
    return forall(lambda w: (implies(And(0 <= w, w < upto), buf(c, w) == f(w)), buf(c, w)))


def partial(c, p, i, f):
    """children of p before node i are entered, the rest still holds f"""
    return filled(c, nwords(c), lambda w: If(And(child(p, w) >= 0, child(p, w) < i), lp(c, child(p, w)), f(w)))


def rangeinv(c, p):
    return And(has_range(c, p), ci(c, p) <= c.v('i'), c.v('i') <= ci(c, p + 1), c.v('next_child_index') == ci(c, p + 1),
               c.v('child_index') == ci(c, p))


def mapped(c, f):
    return And(c.v('i') >= 0, c.v('i') <= nxt(c).size, forall(lambda k: (implies(
        And(0 <= k, k < c.v('i')), res(c)[k] == f(nxt(c)[k])), res(c)[k])))


def same(c):
    return And(res(c).size == res(c.old).size,
               forall(lambda k: (implies(k >= nxt(c).size, res(c)[k] == res(c.old)[k]), res(c)[k])))


bigram = Spec(
    'TreeGram::fetch_bigram_list(int, %s)' % VEC, unit='TreeGram.cc',
    requires=tree.WF + [('children follow the unigrams', children), ('lists', lists),
                        ('known context', lambda c: known(c, 'prev_word_id'))],
    assigns=lambda c: [c.a('result_buffer')], exits=lambda c: z3.BoolVal(False),
    ensures=[('each element is the back-off probability of the bigram', lambda c: forall(lambda k: (implies(
        And(0 <= k, k < nxt(c).size), res(c)[k] == bi(c, c.a('prev_word_id'), nxt(c)[k])), res(c)[k]))),
        ('nothing beyond the list is written', same)],
    loops=[
        Loop([('unigrams', lambda c: And(c.v('i') >= 0, c.v('i') <= nwords(c),
                                         c.v('back_off_w') == bow(c, c.a('prev_word_id')),
                                         filled(c, c.v('i'), lambda w: bow(c, c.a('prev_word_id')) + uni(c, w))))]),
        Loop([('range', lambda c: rangeinv(c, c.a('prev_word_id'))), ('bigrams', lambda c: partial(
            c, c.a('prev_word_id'), c.v('i'), lambda w: bow(c, c.a('prev_word_id')) + uni(c, w)))]),
        Loop([('copied', lambda c: And(same(c), mapped(c, lambda w: bi(c, c.a('prev_word_id'), w))))])])


def W12(c):
    return c.a('w1'), c.a('w2')


def B(c):
    return child(c.a('w1'), c.a('w2'))


trigram = Spec(
    'TreeGram::fetch_trigram_list(int, int, %s)' % VEC, unit='TreeGram.cc',
    requires=tree.WF + [('children follow the unigrams', children), ('lists', lists),
                        ('known context', lambda c: known(c, 'w1', 'w2'))],
    assigns=lambda c: [c.a('result_buffer')], exits=lambda c: z3.BoolVal(False),
    ensures=[('each element is the back-off probability of the trigram', lambda c: forall(lambda k: (implies(
        And(0 <= k, k < nxt(c).size), res(c)[k] == tri(c, c.a('w1'), c.a('w2'), nxt(c)[k])), res(c)[k]))),
        ('nothing beyond the list is written', same)],
    loops=[
        Loop([('unigrams', lambda c: And(c.v('i') >= 0, c.v('i') <= nwords(c),
                                         c.v('bigram_index') == B(c), c.v('bigram_back_off_w') == bow(c, B(c)),
                                         c.v('temp') == bow(c, B(c)) + bow(c, c.a('w2')),
                                         filled(c, c.v('i'), lambda w: bow(c, B(c)) + bow(c, c.a('w2')) + uni(c, w))))]),
        Loop([('range', lambda c: And(rangeinv(c, c.a('w2')), c.v('bigram_back_off_w') == bow(c, B(c)))), ('bigrams', lambda c: filled(
            c, nwords(c), lambda w: If(And(child(c.a('w2'), w) >= 0, child(c.a('w2'), w) < c.v('i')),
                                       bow(c, B(c)) + lp(c, child(c.a('w2'), w)),
                                       bow(c, B(c)) + bow(c, c.a('w2')) + uni(c, w))))]),
        Loop([('range', lambda c: rangeinv(c, B(c))), ('trigrams', lambda c: partial(
            c, B(c), c.v('i'), lambda w: bow(c, B(c)) + bi(c, c.a('w2'), w)))]),
        Loop([('copied', lambda c: And(same(c), mapped(c, lambda w: tri(c, c.a('w1'), c.a('w2'), w))))])])

SPECS = [tree.binary_search, tree.find_child, bigram, trigram]
HARNESS = 'c09.cc'
BOUNDED = 'random back-off models (<=12 words, order<=4), every context word and sampled/existing two-word contexts, random next-word lists, against log_prob; InterTreeGram over ARPA files'
BOUNDED_FUNCTIONS = ['InterTreeGram::fetch_bigram_list']
