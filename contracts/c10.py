"""C10: iteration over the tree (TreeGram::Iterator).

The stack S holds the node of every order on the way to the current node.  next() is the
preorder successor: first child if there is one, else the next sibling of the deepest level
that has one."""
import z3
import tree
from tree import ci
from sym import Spec, Loop, Ptr, I, R, Ctx
from spec import forall, implies, And, Or, Not, If

TG = Ptr('tg', (0,))


def itptrs(eng, args, names, st):
    mem = eng.mod.di_members(eng.mod.find_di_type('Iterator'))
    p = args[names.index('this')]
    st.cells[(p.region, p.off(mem['m_gram'][0]).path)] = TG
    return args


def T(c):
    return Ctx(c.eng, c.st, c.st, [('this', TG)])


def g(c):
    return tree.tg(T(c))


def S(c):
    return c.obj('this', 'Iterator').m_index_stack


def ns(c):
    return g(c).m_nodes.size


def cix(c, i):
    return g(c).m_nodes[i].child_index


def n1(c):
    return g(c).m_order_count[0]


def kids(c, i):
    return And(i >= 0, i + 1 < ns(c), cix(c, i) >= 1, cix(c, i + 1) > cix(c, i))


def wf(c):
    return And(ns(c) >= 1, ns(c) < 2 ** 31 - 1, g(c).m_order_count.size >= 1, n1(c) >= 1, n1(c) <= ns(c), cix(c, ns(c) - 1) <= 0,
               forall(lambda p: (implies(And(0 <= p, p < ns(c)), And(
                   cix(c, p) >= -1, cix(c, p) != 0)), cix(c, p))),
               forall(lambda p: (implies(And(0 <= p, p + 1 < ns(c), cix(c, p) >= 0, cix(c, p + 1) >= 0), And(
                   cix(c, p) <= cix(c, p + 1), cix(c, p + 1) <= ns(c))), cix(c, p))))


def valid(c, s=None):
    """every level is a child of the level above"""
    s = s or S(c)
    return And(s.size >= 1, s.size < 2 ** 31, s[0] >= 0, s[0] < n1(c), forall(lambda k: (implies(
        And(1 <= k, k < s.size), And(kids(c, s[k - 1]), cix(c, s[k - 1]) <= s[k], s[k] < cix(c, s[k - 1] + 1))), s[k])))


def sib(c, s, k):
    """level k has a next sibling"""
    return If(k == 0, s[0] + 1 < n1(c), s[k] + 1 < cix(c, s[k - 1] + 1))


def prefix(c, s, s0, n):
    return forall(lambda k: (implies(And(0 <= k, k < n), s[k] == s0[k]), s[k]))


def nosib(c, s0, lo):
    return forall(lambda k: (implies(And(lo <= k, k < s0.size), Not(sib(c, s0, k))), s0[k]))


def top(s):
    return s[s.size - 1]


def next_post(c):
    s, s0 = S(c), S(c.old)
    r = c.result
    return And(
        implies(s0.size == 0, And(r, s.size == 1, s[0] == 0)),
        implies(And(s0.size > 0, kids(c, top(s0))), And(
            r, s.size == s0.size + 1, prefix(c, s, s0, s0.size), top(s) == cix(c, top(s0)))),
        implies(And(s0.size > 0, Not(kids(c, top(s0))), r), And(
            s.size >= 1, s.size <= s0.size, prefix(c, s, s0, s.size - 1), top(s) == s0[s.size - 1] + 1,
            sib(c, s0, s.size - 1), nosib(c, s0, s.size))),
        implies(Not(r), And(s0.size > 0, Not(kids(c, top(s0))), nosib(c, s0, z3.IntVal(0)))))


REQ = [('node array', wf)]
VALID = [('current position', valid)]
KW = dict(unit='TreeGram.cc', ptrs=itptrs)
NOEXIT = lambda c: z3.BoolVal(False)


def ASG(c):
    p = c.a('this')
    mem = c.eng.mod.di_members(c.eng.mod.find_di_type('Iterator'))
    return [p.off(mem['m_index_stack'][0])]


nxt = Spec(
    'TreeGram::Iterator::next()', exits=NOEXIT, assigns=ASG,
    requires=REQ + [('current position', lambda c: Or(S(c).size == 0, valid(c)))],
    ensures=[('preorder successor', next_post),
             ('position stays valid', lambda c: implies(c.result, valid(c))),
             ('at the end only the last unigram is left', lambda c: implies(Not(c.result), And(valid(c), S(c).size == 1, S(c)[0] == n1(c) - 1)))],
    loops=[Loop([('backtracking', lambda c: And(
        S(c).size >= 1, S(c).size <= S(c.old).size, prefix(c, S(c), S(c.old), S(c).size),
        c.v('backtrack') == (S(c).size < S(c.old).size),
        implies(S(c).size < S(c.old).size, Not(kids(c, top(S(c.old))))))),
        ('skipped levels have no next sibling', lambda c: nosib(c, S(c.old), S(c).size))])], **KW)

nxto = Spec(
    'TreeGram::Iterator::next_order(int)', assigns=ASG,
    requires=REQ + [('current position', lambda c: Or(S(c).size == 0, valid(c))), ('order', lambda c: g(c).m_order < 2 ** 31)],
    exit_cond=lambda c: Or(c.a('order') < 1, c.a('order') > g(c).m_order),
    exits=lambda c: Or(c.a('order') < 1, c.a('order') > g(c).m_order),
    ensures=[('stops at an n-gram of the order', lambda c: implies(c.result, And(valid(c), S(c).size == c.a('order')))),
             ('stops at the end otherwise', lambda c: implies(Not(c.result), And(valid(c), S(c).size == 1, S(c)[0] == n1(c) - 1)))],
    loops=[Loop([('position', lambda c: Or(S(c).size == 0, valid(c)))])], **KW)


def mv(c):
    s, d = S(c.old), c.a('delta')
    t = top(s) + d
    return If(s.size == 1, And(t >= 0, t < n1(c)), And(
        t >= cix(c, s[s.size - 2]), t < cix(c, s[s.size - 2] + 1)))


move = Spec(
    'TreeGram::Iterator::move_in_context(int)', exits=NOEXIT, assigns=ASG, requires=REQ + VALID,
    ensures=[('moves exactly if there is such a sibling', lambda c: c.result == mv(c)),
             ('lands on the sibling at the distance', lambda c: And(
                 S(c).size == S(c.old).size, prefix(c, S(c), S(c.old), S(c).size - 1),
                 top(S(c)) == top(S(c.old)) + If(c.result, c.a('delta'), 0))),
             ('position stays valid', valid)], **KW)

up = Spec(
    'TreeGram::Iterator::up()', exits=NOEXIT, assigns=ASG, requires=REQ + VALID,
    ensures=[('fails exactly at a unigram', lambda c: c.result == (S(c.old).size > 1)),
             ('lands on the parent', lambda c: And(S(c).size == S(c.old).size - If(c.result, 1, 0), prefix(c, S(c), S(c.old), S(c).size))),
             ('position stays valid', valid)], **KW)

down = Spec(
    'TreeGram::Iterator::down()', exits=NOEXIT, assigns=ASG, requires=REQ + VALID,
    ensures=[('fails exactly without children', lambda c: c.result == kids(c, top(S(c.old)))),
             ('lands on the first child', lambda c: And(
                 S(c).size == S(c.old).size + If(c.result, 1, 0), prefix(c, S(c), S(c.old), S(c.old).size),
                 implies(c.result, top(S(c)) == cix(c, top(S(c.old)))))),
             ('position stays valid', valid)], **KW)

has = Spec(
    'TreeGram::Iterator::has_children()', exits=NOEXIT, assigns=lambda c: [], requires=REQ + VALID,
    ensures=[('children', lambda c: c.result == kids(c, top(S(c))))], **KW)

SPECS = [nxt, nxto, move, up, down, has]
HARNESS = 'c10.cc'
BOUNDED = 'random tree models, full iteration and iteration per order compared with the inserted n-grams; random moves compared with a reference tree'
DECIDES = ('next() is the preorder successor (parents first, siblings in index order, hence increasing), next_order stops exactly at the '
           'order asked for, move_in_context/up/down/has_children land where stated and fail exactly when there is no such node')
