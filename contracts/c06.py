"""C06: the n-gram tree stores exactly the n-grams inserted, in valid order only."""
import z3
import tree, spec
from tree import tg, nsize, ci, wd, lp, bow, nwords, has_range, in_range, child, gramobj, glen, gw
from sym import Spec, Loop, Ptr, I, R
from spec import forall, implies, And, Or, Not, If

U = 'TreeGram.cc'
FALSE = lambda c: z3.BoolVal(False)
D = z3.Function('order_of_node', I, I)                   # number of words of the n-gram stored at a node
PATH = z3.Function('node_of_prefix', I, I)               # node of gram[0..k] before the insertion, -1 if there is none
DIFF = z3.Int('first_difference')                        # first position where gram and the last one differ


def last(c):
    return spec.V(c.eng, c.st, tg(c).loc('m_last_gram'), tree.gram_type(c.eng))


def oc(c):
    return tg(c).m_order_count


def uni(c):
    return oc(c)[0]


def order(c):
    return tg(c).m_order


def stk(c, k=None):
    s = tg(c).m_insert_stack
    return s if k is None else s[k]


def ol(c):
    """number of words of the last n-gram"""
    s = last(c).size
    return If(s == 0, 1, s)


def lpar(c):
    """the node below which the last n-gram was put"""
    return stk(c, ol(c) - 2)


def sizes(c):
    n, L = nsize(c), last(c)
    return And(1 <= n, n < 2 ** 30, 0 <= L.size, L.size < 2 ** 20, oc(c).size >= 1, 1 <= uni(c), uni(c) <= n, implies(L.size == 0, n == 1))


def levels(c):
    return And(order(c) == ol(c), oc(c).size == order(c))


def counts(c):
    return forall(lambda k: (implies(And(0 <= k, k < order(c)), And(0 <= oc(c)[k], oc(c)[k] <= nsize(c))), oc(c)[k]))


def unigrams(c):
    return forall(lambda i: (implies(And(0 <= i, i < uni(c)), wd(c, i) == i), wd(c, i)))


def known(c):
    """every word has a unigram"""
    return forall(lambda i: (implies(And(0 <= i, i < nsize(c)), And(0 <= wd(c, i), wd(c, i) < uni(c))), wd(c, i)))


def firstorder(c):
    """as long as there are unigrams only"""
    return implies(ol(c) == 1, And(nsize(c) == uni(c), implies(last(c).size == 1, last(c)[0] == uni(c) - 1),
                                      forall(lambda p: (implies(And(0 <= p, p < nsize(c)), ci(c, p) == -1), ci(c, p)))))


def depth(c):
    n = nsize(c)
    return And(forall(lambda i: (implies(And(0 <= i, i < n), And(1 <= D(i), D(i) <= ol(c), (D(i) == 1) == (i < uni(c)))), D(i))),
               D(n - 1) == ol(c))


def depthmono(c):
    return forall(lambda i, j: (implies(And(0 <= i, i <= j, j < nsize(c)), D(i) <= D(j)), [(D(i), D(j))]))


def ranges(c):
    return forall(lambda p: (implies(And(0 <= p, p < nsize(c)), And(-1 <= ci(c, p), ci(c, p) <= nsize(c))), ci(c, p)))


def mono(c):
    return forall(lambda p, q: (implies(And(0 <= p, p <= q, q < nsize(c), ci(c, p) >= 0, ci(c, q) >= 0), ci(c, p) <= ci(c, q)),
                                [(ci(c, p), ci(c, q))]))


def lastparent(c):
    n, l = nsize(c), lpar(c)
    return implies(ol(c) >= 2, And(stk(c).size == ol(c), 0 <= l, l < n - 1, stk(c, ol(c) - 1) == n - 1, ci(c, l) >= 0, ci(c, l) < n, ci(c, l + 1) == n,
                                      D(l) == ol(c) - 1, wd(c, n - 1) == last(c)[ol(c) - 1]))


def tail(c):
    return implies(ol(c) >= 2, forall(lambda p: (implies(And(lpar(c) + 1 < p, p < nsize(c)), ci(c, p) == -1), ci(c, p))))


def deeper(c):
    return forall(lambda p, j: (implies(And(has_range(c, p), in_range(c, p, j)), And(j > p, D(j) == D(p) + 1)), [(ci(c, p), D(j))]))


def lastpath(c):
    """the insert stack is the path of the last n-gram"""
    m = ol(c)
    return implies(m >= 2, And(stk(c, 0) == last(c)[0], forall(lambda k: (implies(And(0 <= k, k < m), And(
        0 <= stk(c, k), stk(c, k) < nsize(c), D(stk(c, k)) == k + 1)), stk(c, k)))))


def chained(f):
    return lambda c: implies(ol(c) >= 2, forall(lambda k: (implies(And(1 <= k, k < ol(c)), f(c, k)), stk(c, k))))


lastrange = chained(lambda c, k: has_range(c, stk(c, k - 1)))
lastin = chained(lambda c, k: in_range(c, stk(c, k - 1), stk(c, k)))
lastwords = chained(lambda c, k: wd(c, stk(c, k)) == last(c)[k])
S = [('sizes', sizes), ('unigrams', unigrams), ('words have unigrams', known), ('unigrams only', firstorder), ('orders of nodes', depth),
     ('shorter n-grams first', depthmono), ('first children', ranges), ('children in the order of their parents', mono),
     ('parent of the last n-gram', lastparent), ('no children yet', tail), ('children are one word longer', deeper),
     ('path of the last n-gram', lastpath), ('path has children', lastrange), ('path goes through the children', lastin), ('words of the path', lastwords), ('siblings sorted', tree.wf_sorted)]
J = [('levels', levels), ('counts', counts)] + S


# ---------------------------------------------------------------- what may be inserted
def isunk(c):
    return And(glen(c) == 1, gw(c, 0) == 0)


def diffdef(c):
    L = last(c)
    return implies(glen(c) == L.size, And(0 <= DIFF, DIFF <= glen(c), forall(lambda k: (implies(And(0 <= k, k < DIFF), gw(c, k) == L[k]), gw(c, k))),
                                          implies(DIFF < glen(c), gw(c, DIFF) != L[DIFF])))


def inorder(c):
    """of the same order and after the last one, or the first of the next order"""
    n, L = glen(c), last(c)
    return Or(isunk(c), And(Or(n == L.size, n == L.size + 1), implies(n == 1, gw(c, 0) == nsize(c)), implies(n > 1, gw(c, n - 1) < uni(c)),
                            implies(n == L.size, And(DIFF < n, gw(c, DIFF) > L[DIFF]))))


def pathdef(c):
    return And(PATH(0) == If(gw(c, 0) < uni(c), gw(c, 0), -1), forall(lambda k: (implies(And(k >= 1, k < glen(c)), PATH(k) == If(
        PATH(k - 1) < 0, -1, child(PATH(k - 1), gw(c, k)))), PATH(k))),
               forall(lambda j, k: (implies(And(0 <= j, j <= k, k < glen(c), PATH(k) >= 0), PATH(j) >= 0), [(gw(c, j), PATH(k))])))


def hasprefix(c):
    return Or(glen(c) == 1, PATH(glen(c) - 2) >= 0)


def valid(c):
    return And(inorder(c), hasprefix(c))


missing = lambda c: c.a('add_missing_unigrams')
GRAM = [('words of the n-gram', tree.gram_ok), ('length', lambda c: glen(c) < 2 ** 20), ('first difference', diffdef)]
nomissing = ('unigrams are not filled in', lambda c: Not(truth(missing(c))))
truth = lambda x: x if z3.is_bool(x) else x != 0

def nodesame(c, i):
    o = c.old
    return And(wd(c, i) == wd(o, i), ci(c, i) == ci(o, i), lp(c, i) == lp(o, i), bow(c, i) == bow(o, i))


def same(c):
    o, L = c.old, last(c)
    return And(nsize(c) == nsize(o), order(c) == order(o), oc(c).size == oc(o).size, stk(c).size == stk(o).size, L.size == last(o).size,
               forall(lambda i: (implies(And(0 <= i, i < nsize(o)), nodesame(c, i)), wd(o, i))),
               forall(lambda k: (implies(And(0 <= k, k < order(o)), And(oc(c)[k] == oc(o)[k], stk(c, k) == stk(o, k), L[k] == last(o)[k])), oc(o)[k])))


print_gram = Spec(
    'TreeGram::print_gram(_IO_FILE*, std::deque<int, std::allocator<int>> const&)', unit=U,
    requires=[GRAM[0]], assigns=lambda c: [], exits=FALSE, loops=[Loop([('range', lambda c: And(0 <= c.v('i'), c.v('i') <= glen(c)))])])

check_order = Spec(
    'TreeGram::check_order(std::deque<int, std::allocator<int>> const&, bool)', unit=U, requires=J + GRAM + [nomissing],
    assigns=lambda c: [], exit_cond=lambda c: Not(inorder(c)), exits=lambda c: Not(inorder(c)), throws=True,
    onthrow=[('nothing was changed', lambda c: same(c))],
    ensures=[('in order', inorder)],
    loops=[Loop([('not entered', lambda c: z3.BoolVal(True))]), Loop([('not entered', lambda c: z3.BoolVal(True))]),
           Loop([('equal so far', lambda c: And(0 <= c.v('i'), c.v('i') <= glen(c), c.v('i') <= DIFF))])])

def ostk(c, k):
    return stk(c.old, k)


def len1(c):
    return glen(c) - 1


def pathok(c, n):
    """the stack holds the nodes of the first n prefixes"""
    return forall(lambda k: (implies(And(0 <= k, k < n), And(stk(c, k) == PATH(k), 0 <= PATH(k), PATH(k) < nsize(c), D(PATH(k)) == k + 1,
                                                             implies(k > 0, And(has_range(c, PATH(k - 1)), in_range(c, PATH(k - 1), PATH(k)), wd(c, PATH(k)) == gw(c, k))))), [stk(c, k), PATH(k)]))


def samelen(c):
    return And(ol(c.old) >= 2, glen(c) == ol(c.old))


def later(c, k):
    """node k of the path against node k of the path of the last n-gram"""
    return implies(samelen(c), If(k < DIFF, stk(c, k) == ostk(c, k), stk(c, k) > ostk(c, k)))


PREFIX = [('more than one word', lambda c: glen(c) > 1), ('in order', inorder), ('nodes of the prefixes', pathdef), ('definition of child', tree.child_def)]
find_path = Spec(
    'TreeGram::find_path(std::deque<int, std::allocator<int>> const&)', unit=U, requires=S + GRAM + PREFIX,
    assigns=lambda c: [tg(c).loc('m_insert_stack')], exits=lambda c: Not(hasprefix(c)),
    ensures=[('prefix exists', hasprefix), ('size', lambda c: stk(c).size == len1(c)), ('path of the prefix', lambda c: pathok(c, len1(c))),
             ('after the last path', lambda c: later(c, glen(c) - 2))],
    loops=[Loop([('equal so far', lambda c: And(0 <= c.v('order'), c.v('order') <= len1(c), implies(glen(c) == last(c).size, c.v('order') <= DIFF),
                                                forall(lambda k: (implies(And(0 <= k, k < c.v('order')), gw(c, k) == last(c)[k]), gw(c, k))))),
                 ('shared path', lambda c: implies(ol(c) >= 2, pathok(c, c.v('order'))))]),
           Loop([('position', lambda c: And(c.v('order') == stk(c).size, 0 <= c.v('order'), c.v('order') <= len1(c),
                                            c.v('prev') == If(c.v('order') == 0, -1, stk(c, c.v('order') - 1)))),
                 ('beyond the common prefix', lambda c: implies(samelen(c), Or(c.v('order') >= DIFF, c.v('order') == len1(c)))),
                 ('path so far', lambda c: pathok(c, c.v('order'))),
                 ('after the last path', lambda c: implies(c.v('order') > 0, later(c, c.v('order') - 1)))])])


# ---------------------------------------------------------------- insertion
def newnode(c):
    """the node added holds the n-gram with its values"""
    n = nsize(c.old)
    return If(isunk(c), And(nsize(c) == n, lp(c, 0) == c.a('log_prob'), bow(c, 0) == c.a('back_off')),
              And(nsize(c) == n + 1, wd(c, n) == gw(c, glen(c) - 1), lp(c, n) == c.a('log_prob'), bow(c, n) == c.a('back_off')))


def kept(c):
    """the other nodes keep their words and values"""
    o = c.old
    return forall(lambda i: (implies(And(0 <= i, i < nsize(o)), And(wd(c, i) == wd(o, i), implies(Or(i > 0, Not(isunk(c))), And(
        lp(c, i) == lp(o, i), bow(c, i) == bow(o, i))))), wd(c, i)))


def ischild(c, p, j):
    return And(has_range(c, p), in_range(c, p, j))


def childkept(c):
    """a node is below another exactly if it was"""
    o = c.old
    return forall(lambda p, j: (implies(And(0 <= j, j < nsize(o), 0 <= p, p < nsize(c)), ischild(c, p, j) == ischild(o, p, j)), [(ci(c, p), wd(c, j))]))


def childnew(c):
    """the new node is below the node of its prefix only"""
    n = nsize(c.old)
    return implies(Not(isunk(c)), forall(lambda p: (implies(And(0 <= p, p < nsize(c)), ischild(c, p, n) == And(
        glen(c) > 1, p == PATH(glen(c) - 2))), ci(c, p))))


def counted(c):
    o, n = c.old, glen(c)
    return And(forall(lambda k: (implies(And(0 <= k, k < order(o)), oc(c)[k] == oc(o)[k] + If(And(k == n - 1, Not(isunk(c))), 1, 0)), oc(c)[k])),
               implies(n > order(o), And(order(c) == n, oc(c)[n - 1] == 1)), implies(n <= order(o), order(c) == order(o)))


def par(c):
    return PATH(glen(c) - 2)


def ciupd(c):
    o, n, p0 = c.old, nsize(c.old), par(c)
    return implies(glen(c) > 1, forall(lambda p: (implies(And(0 <= p, p <= n), ci(c, p) == If(p == p0 + 1, n + 1, If(And(p == p0, ci(o, p) < 0), n, If(
        p == n, -1, ci(o, p))))), ci(c, p))))


def cisame(c):
    o, n = c.old, nsize(c.old)
    return implies(glen(c) == 1, And(forall(lambda p: (implies(And(0 <= p, p < n), ci(c, p) == ci(o, p)), ci(c, p))), implies(Not(isunk(c)), ci(c, n) == -1)))


def stkupd(c):
    return If(glen(c) > 1, And(stk(c).size == glen(c), stk(c, glen(c) - 1) == nsize(c.old), forall(lambda k: (implies(And(0 <= k, k < glen(c) - 1), stk(c, k) == PATH(k)), stk(c, k)))),
              And(stk(c).size == stk(c.old).size, forall(lambda k: (stk(c, k) == ostk(c, k), stk(c, k)))))


def lastupd(c):
    o = c.old
    return If(Or(Not(isunk(c)), last(o).size == 0), And(last(c).size == glen(c), forall(lambda k: (implies(And(0 <= k, k < glen(c)), last(c)[k] == gw(c, k)), last(c)[k]))),
              And(last(c).size == last(o).size, forall(lambda k: (implies(And(0 <= k, k < last(o).size), last(c)[k] == last(o)[k]), last(c)[k]))))


def unchanged(c):
    return implies(isunk(c), And(oc(c).size == oc(c.old).size, order(c) == order(c.old)))


def pathold(c):
    o = c.old
    return implies(glen(c) > 1, forall(lambda k: (implies(And(0 <= k, k < glen(c) - 1), And(
        0 <= PATH(k), PATH(k) < nsize(o), D(PATH(k)) == k + 1,
        implies(k > 0, And(has_range(o, PATH(k - 1)), in_range(o, PATH(k - 1), PATH(k)), wd(o, PATH(k)) == gw(c, k))))), PATH(k))))


def parent(c):
    o, n = c.old, glen(c)
    return implies(n > 1, And(0 <= par(c), par(c) < nsize(o), D(par(c)) == n - 1, PATH(0) == gw(c, 0), implies(n >= 3, PATH(n - 3) >= 0), implies(ol(o) >= 2, And(
        par(c) >= lpar(o), implies(n > ol(o), par(c) > lpar(o)), implies(par(c) == lpar(o), And(n == ol(o), DIFF == n - 1))))))


def counts0(c):
    o = c.old
    return And(uni(c) == uni(o) + If(And(glen(c) == 1, Not(isunk(c))), 1, 0))


FACTS = [('new node', newnode), ('other nodes', kept), ('first children', ciupd), ('first children of unigrams', cisame), ('insert stack', stkupd), ('last n-gram', lastupd),
         ('only valid insertions', lambda c: valid(c.old)), ('nodes of the prefixes', pathold), ('parent', parent), ('counts', counted), ('unigrams', counts0),
         ('orders', unchanged), ('order of the new node', lambda c: implies(Not(isunk(c)), D(nsize(c.old)) == glen(c)))]


def largest(c):
    o = c.old
    return implies(glen(c) > 1, forall(lambda j: (implies(ischild(o, par(c), j), wd(o, j) < gw(c, glen(c) - 1)), wd(o, j))))


def add_ghost(c):
    """the effect of the insertion, and from it alone that the tree stays well-formed"""
    from sym import State, Ctx
    st, e = c.st, c.eng
    for k in list(st.cells):
        if k[0] == c.a('this').region and z3.is_array(st.cells[k]):
            v = e.fresh('final', st.cells[k].sort())
            st.assume(v == st.cells[k])
            st.cells[k] = v
    facts = []
    for nm, f in FACTS:
        e.oblige(st, 'lemma', 'effect: ' + nm, f(c))
        facts.append(f(c))
    o = c.old
    s0 = State()
    for f in facts + [f(o) for nm, f in J + GRAM]:
        s0.assume(f)
    s0.assume(z3.And(nsize(o) < 2 ** 30 - 1))
    l = largest(c)
    e.oblige(s0, 'lemma', 'the new word is the largest below its parent', l)
    for nm, f in ENSURES:
        s1 = s0
        if f is tree.wf_sorted:
            s1 = State()
            for x in (l, childkept(c), childnew(c), kept(c), newnode(c), valid(o), tree.wf_sorted(o), sizes(o), parent(c), ranges(c)):
                s1.assume(x)
        e.oblige(s1, 'lemma', 'follows: ' + nm, f(c))
        st.assume(f(c))


ENSURES = [('children kept', childkept), ('new child', childnew)] + [('inv: ' + n, f) for n, f in J]
add_gram = Spec(
    'TreeGram::add_gram(std::deque<int, std::allocator<int>> const&, float, float, bool)', unit=U,
    requires=J + GRAM + [nomissing] + PREFIX[2:] + [
        ('order of the new node', lambda c: implies(And(valid(c), Not(isunk(c))), D(nsize(c)) == glen(c))), ('room', lambda c: nsize(c) < 2 ** 30 - 1)],
    assigns=lambda c: [tg(c).loc(m) for m in ('m_nodes', 'm_order_count', 'm_order', 'm_insert_stack', 'm_last_gram')],
    exits=lambda c: Not(valid(c.old)), onthrow=[('nothing was changed', same)],
    ghost=add_ghost,
    ensures=[('only valid insertions', lambda c: valid(c.old)), ('new node', newnode), ('other nodes', kept), ('counts', counted)] + ENSURES)

reserve_nodes = Spec(
    'TreeGram::reserve_nodes(int)', unit=U, requires=[('no n-gram yet', lambda c: last(c).size == 0), ('order of the first node', lambda c: D(0) == 1)],
    assigns=lambda c: [tg(c).loc(m) for m in ('m_nodes', 'm_order_count', 'm_order')], exits=FALSE,
    ensures=[('the unknown word only', lambda c: And(nsize(c) == 1, wd(c, 0) == 0, bow(c, 0) == 0))] + [('inv: ' + n, f) for n, f in J])


def nodeskept(c):
    o = c.old
    return And(nsize(c) >= nsize(o), nsize(c) <= nsize(o) + 1, forall(lambda i: (implies(And(0 <= i, i < nsize(o)), nodesame(c, i)), wd(c, i))))


finalize = Spec(
    'TreeGram::finalize(bool)', unit=U, requires=J + [nomissing, ('room', lambda c: nsize(c) < 2 ** 30 - 1)],
    assigns=lambda c: [tg(c).loc('m_nodes')], exits=FALSE,
    loops=[Loop([('not entered', lambda c: z3.BoolVal(True))])],
    ensures=[('nodes kept', nodeskept), ('children kept', childkept),
             ('no other children', lambda c: forall(lambda p: (implies(And(0 <= p, p < nsize(c)), Not(ischild(c, p, nsize(c.old)))), ci(c, p))))])

SPECS = [tree.binary_search, tree.find_child, print_gram, check_order, find_path, add_gram, reserve_nodes, finalize]
CONTRACTS = SPECS
HARNESS = 'c06.cc'
BOUNDED = 'random prefix-closed models (<=14 words, order<=4) inserted step by step with refused insertions of each kind'
BOUNDED_FUNCTIONS = ['filling in missing unigrams (add_missing_unigrams = true)']
DECIDES = ('add_gram accepts exactly the valid n-grams (next in order, unigrams in place, prefix stored), appends one node with the word and values given and '
           'changes nothing else: a node is below another exactly if it was, the new node is below the node of its prefix only, no other word or value '
           'changes, the counts grow by one; a refusal by exception comes before any write; the tree invariant (sorted siblings, child ranges, orders, '
           'path of the last n-gram) is kept; lookup finds a child exactly if there is one')
NOTE = ('order_of_node(i) is a ghost value: the number of words of the n-gram stored at node i, set when node i is appended; node_of_prefix and '
        'first_difference are defined by the tree and the n-gram before the insertion.')
TIMEOUT = 20
