"""Contracts of the vocabulary (Vocabulary.cc / .hh): words and indices form a bijection."""
import z3
from sym import Spec, Loop, Ptr, I, R, nsel
from spec import forall, implies, And, Or, Not, If, V, vsize
from ir import Unsupported
import strmap


class Voc:
    """abstract view of the vocabulary at pointer p"""

    def __init__(self, c, p, off_i, off_w):
        self.c, self.e, self.st = c, c.eng, c.st
        self.ix, self.ws = p.off(off_i), p.off(off_w)
        self.T = strmap.MapT(self.e, strmap.STRT + ', std::char_traits<char>, std::allocator<char>>', 'int')

    n = property(lambda s: vsize(s.e, s.st, s.ws))
    m = property(lambda s: vsize(s.e, s.st, s.ix))

    def word(self, i):
        return strmap.sidp(self.e, self.st, self.ws.newstep(32, i, 'V'))

    def has(self, k):
        return self.T.has(self.e, self.st, self.ix, k)

    def val(self, k):
        q = self.T.node(self.ix, k).off(self.T.voff)
        return nsel(self.e.cell(self.st, q.region, q.path, I), q.idx)


def voc(c, name='this', p=None):
    mem = c.eng.mod.di_members(c.eng.mod.find_di_type('Vocabulary'))
    p = c.a(name) if p is None else p
    return Voc(c, p, mem['m_indices'][0], mem['m_words'][0])


def inv(c, name='this', p=None):
    """words and indices are inverse to each other"""
    v = voc(c, name, p)
    return And(v.n >= 0, v.n <= 2 ** 31 - 2, v.m == v.n,
               forall(lambda i: (implies(And(0 <= i, i < v.n), And(v.has(v.word(i)), v.val(v.word(i)) == i)), v.word(i))),
               forall(lambda k: (implies(v.has(k), And(0 <= v.val(k), v.val(k) < v.n, v.word(v.val(k)) == k)), v.val(k))))


def ok(c, name='this'):
    return And(inv(c, name), voc(c, name).n >= 1)


INV = ('words and indices are inverse to each other', inv)


def arg(c, name='word'):
    try:
        p = c.a(name)
    except Unsupported:
        p = c.args[1][1]                     # declared elsewhere
    return strmap.sidp(c.eng, c.st, p)


def kept(c):
    a, b = voc(c.old), voc(c)
    return And(forall(lambda i: (implies(And(0 <= i, i < a.n), b.word(i) == a.word(i)), b.word(i))),
               forall(lambda k: (implies(a.has(k), And(b.has(k), b.val(k) == a.val(k))), b.val(k))))


ALL = lambda c: [voc(c).ix, voc(c).ws]
NOEXIT = lambda c: z3.BoolVal(False)

ctor = Spec('Vocabulary::Vocabulary()', unit='Vocabulary.cc', modular=False, assigns=ALL, exits=NOEXIT,
            ensures=[INV, ('only the unknown word', lambda c: And(
                voc(c).n == 1, voc(c).word(z3.IntVal(0)) == strmap.strlit(c.eng, '<UNK>')))])

SIG = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&'
add_word = Spec(
    'Vocabulary::add_word(%s)' % SIG, unit='Vocabulary.cc', requires=[INV], assigns=ALL, exits=NOEXIT,
    ensures=[INV, ('existing words keep their index', kept),
             ('returns the index of the word', lambda c: And(
                 0 <= c.result, c.result < voc(c).n, voc(c).word(c.result) == arg(c.old),
                 voc(c).has(arg(c.old)), voc(c).val(arg(c.old)) == c.result)),
             ('no duplicates, grows by one otherwise', lambda c: If(
                 voc(c.old).has(arg(c.old)),
                 And(voc(c).n == voc(c.old).n, c.result == voc(c.old).val(arg(c.old))),
                 And(voc(c).n == voc(c.old).n + 1, c.result == voc(c.old).n)))])

clear_words = Spec('Vocabulary::clear_words()', unit='Vocabulary.cc', requires=[], assigns=ALL, exits=NOEXIT,
                   ensures=[INV, ('empty', lambda c: And(voc(c).n == 0, forall(lambda k: Not(voc(c).has(k)))))])

set_oov = Spec(
    'Vocabulary::set_oov(%s)' % SIG, unit='Vocabulary.cc', requires=[INV, ('not empty', lambda c: voc(c).n >= 1)],
    assigns=ALL, exits=NOEXIT,
    ensures=[INV, ('the unknown word has index 0', lambda c: And(voc(c).n >= 1, voc(c).word(z3.IntVal(0)) == arg(c.old))),
             ('nothing else is left unless it already was the unknown word', lambda c: implies(
                 voc(c.old).word(z3.IntVal(0)) != arg(c.old), voc(c).n == 1)),
             ('unchanged if it already was', lambda c: implies(
                 voc(c.old).word(z3.IntVal(0)) == arg(c.old), And(voc(c).n == voc(c.old).n, kept(c))))])

word_index = Spec(
    'Vocabulary::word_index(%s) const' % SIG, unit='unit:vocab.cc', requires=[INV], assigns=lambda c: [], exits=NOEXIT,
    ensures=[('index of a known word', lambda c: implies(voc(c).has(arg(c)), c.result == voc(c).val(arg(c)))),
             ('0 for unknown words', lambda c: implies(Not(voc(c).has(arg(c))), c.result == 0))])

word = Spec(
    'Vocabulary::word[abi:cxx11](int) const', unit='unit:vocab.cc', requires=[INV], assigns=lambda c: [],
    exit_cond=lambda c: Or(c.a('index') < 0, c.a('index') >= voc(c).n),
    exits=lambda c: Or(c.a('index') < 0, c.a('index') >= voc(c).n),
    result=lambda c: voc(c).ws.newstep(32, c.a('index'), 'V'),
    ensures=[('the word with that index', lambda c: strmap.sidp(c.eng, c.st, c.result) == voc(c).word(c.a('index')))])

num_words = Spec('Vocabulary::num_words() const', unit='unit:vocab.cc', requires=[INV], assigns=lambda c: [], exits=NOEXIT,
                 ensures=[('number of words', lambda c: c.result == voc(c).n)])

is_oov = Spec('Vocabulary::is_oov(int) const', unit='unit:vocab.cc', assigns=lambda c: [], exits=NOEXIT,
              ensures=[('index 0', lambda c: c.result == (c.a('index') == 0))])

copy_vocab_to = Spec(
    'Vocabulary::copy_vocab_to(Vocabulary&)', unit='unit:vocab.cc', requires=[INV],
    assigns=lambda c: [voc(c, 'Voc').ix, voc(c, 'Voc').ws], exits=NOEXIT,
    ensures=[('the copy is consistent', lambda c: inv(c, 'Voc')),
             ('same words', lambda c: And(voc(c, 'Voc').n == voc(c).n, forall(lambda i: implies(
                 And(0 <= i, i < voc(c).n), voc(c, 'Voc').word(i) == voc(c).word(i)))))])

SPECS = [ctor, add_word, clear_words, set_oov, word_index, word, num_words, is_oov, copy_vocab_to]
