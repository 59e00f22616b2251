"""Contracts of the n-gram prefix tree (TreeGram.cc), shared by several properties.

child(p, w) is the spec function "node of word w below node p" (p < 0: unigram w,
-1: none).  node(n, k) is the node reached by gram[n..n+k]."""
import z3
from sym import Spec, Loop, Ptr, I, R
from spec import forall, implies, And, Or, Not, If, exists

child = z3.Function('child', I, I, I)
node = z3.Function('path_node', I, I, I)
BO = z3.Function('backoff_prob', I, R)
IP = z3.Function('interp_prob', I, R)


def tg(c):
    return c.obj('this', 'TreeGram')


def nsize(c):
    return tg(c).m_nodes.size


def ci(c, i):
    return tg(c).m_nodes[i].child_index


def wd(c, i):
    return tg(c).m_nodes[i].word


def lp(c, i):
    return tg(c).m_nodes[i].log_prob


def bow(c, i):
    return tg(c).m_nodes[i].back_off


def nwords(c):
    return tg(c).m_words.size


def has_range(c, p):
    return And(p >= 0, p < nsize(c) - 1, ci(c, p) >= 0, ci(c, p + 1) >= 0)


def in_range(c, p, j):
    return And(ci(c, p) <= j, j < ci(c, p + 1))


def wf_sizes(c):
    return And(nsize(c) >= 1, nsize(c) < 2 ** 31 - 1, nwords(c) >= 1, nwords(c) <= nsize(c))


def wf_ranges(c):
    """child ranges lie inside the node array"""
    return forall(lambda p: (implies(has_range(c, p), And(
        ci(c, p) <= ci(c, p + 1), ci(c, p + 1) <= nsize(c))), ci(c, p)))


def wf_sorted(c):
    """siblings are strictly sorted by word"""
    return forall(lambda p, j, k: (implies(And(has_range(c, p), in_range(c, p, j), in_range(c, p, k), j < k),
                                           wd(c, j) < wd(c, k)), [(ci(c, p), wd(c, j), wd(c, k))]))


def child_def(c):
    return And(
        forall(lambda p, w: (implies(p < 0, child(p, w) == w), child(p, w))),
        forall(lambda p, w: (implies(And(p >= 0, Not(has_range(c, p))), child(p, w) == -1), child(p, w))),
        forall(lambda p, w: (implies(has_range(c, p), And(
            child(p, w) >= -1,
            implies(child(p, w) >= 0, And(in_range(c, p, child(p, w)), wd(c, child(p, w)) == w)))),
            child(p, w))),
        forall(lambda p, w, j: (implies(And(has_range(c, p), child(p, w) == -1, in_range(c, p, j)),
                                        wd(c, j) != w), [(child(p, w), wd(c, j))])))


WF = [('node array size', wf_sizes), ('child ranges inside', wf_ranges), ('siblings sorted', wf_sorted),
      ('definition of child', child_def)]

# what find_child needs while the tree is still being built
WF0 = [('node array size', lambda c: And(nsize(c) >= 1, nsize(c) < 2 ** 31 - 1))] + WF[1:]

binary_search = Spec(
    'TreeGram::binary_search(int, int, int)', unit='TreeGram.cc',
    requires=[
        ('range', lambda c: And(0 <= c.a('first'), c.a('last') <= nsize(c), nsize(c) < 2 ** 31 - 1,
                                c.a('first') <= c.a('last'))),
        ('sorted', lambda c: forall(lambda j, k: (implies(
            And(c.a('first') <= j, j < k, k < c.a('last')), wd(c, j) < wd(c, k)), [(wd(c, j), wd(c, k))])))],
    ensures=[
        ('found is right', lambda c: implies(c.result != -1, And(
            c.a('first') <= c.result, c.result < c.a('last'), wd(c, c.result) == c.a('word')))),
        ('nothing missed', lambda c: implies(c.result == -1, forall(lambda j: (implies(
            And(c.a('first') <= j, j < c.a('last')), wd(c, j) != c.a('word')), wd(c, j)))))],
    exits=lambda c: z3.BoolVal(False),
    loops=[
        Loop([('bounds', lambda c: And(c.a('first') <= c.v('first'), c.v('first') <= c.v('last'),
                                       c.v('last') <= c.a('last'), c.v('len') == c.v('last') - c.v('first'))),
              ('not left', lambda c: forall(lambda j: (implies(
                  And(c.a('first') <= j, j < c.v('first')), wd(c, j) < c.a('word')), wd(c, j)))),
              ('not right', lambda c: forall(lambda j: (implies(
                  And(c.v('last') <= j, j < c.a('last')), wd(c, j) > c.a('word')), wd(c, j))))]),
        Loop([('bounds', lambda c: And(c.a('first') <= c.v('first'), c.v('last') <= c.a('last'),
                                       c.v('first') <= c.v('last'))),
              ('not left', lambda c: forall(lambda j: (implies(
                  And(c.a('first') <= j, j < c.v('first')), wd(c, j) != c.a('word')), wd(c, j)))),
              ('not right', lambda c: forall(lambda j: (implies(
                  And(c.v('last') <= j, j < c.a('last')), wd(c, j) > c.a('word')), wd(c, j))))])])

find_child = Spec(
    'TreeGram::find_child(int, int)', unit='TreeGram.cc',
    requires=[('node', lambda c: c.a('node_index') < nsize(c))] + WF0,
    exit_cond=lambda c: Or(c.a('word') < 0, c.a('word') >= nwords(c)),
    exits=lambda c: Or(c.a('word') < 0, c.a('word') >= nwords(c)),
    ensures=[('is the child', lambda c: c.result == child(c.a('node_index'), c.a('word')))])


# ---------------------------------------------------------------- queries
def G(c):
    return c.obj('gram', 'std::deque<int, std::allocator<int> >') if False else gramobj(c)


def gramobj(c):
    from spec import V
    e = c.eng
    return V(e, c.st, c.a('gram'), gram_type(e))


def gram_type(e):
    # NGram::Gram = std::deque<int>
    for n, s in e.mod.md.items():
        if 'DW_TAG_typedef' in s and 'name: "Gram"' in s:
            return n
    from ir import Unsupported
    raise Unsupported('no type Gram')


def glen(c):
    return gramobj(c).size


def gw(c, i):
    return gramobj(c)[i]


def gram_ok(c):
    return And(glen(c) >= 1, glen(c) < 2 ** 31, forall(lambda i: (implies(
        And(0 <= i, i < glen(c)), And(gw(c, i) >= 0, gw(c, i) < nwords(c))), gw(c, i))))


def node_def(c):
    return And(
        forall(lambda n: (node(n, 0) == gw(c, n), node(n, 0))),
        forall(lambda n, k: (implies(k >= 0, node(n, k + 1) == If(
            node(n, k) < 0, -1, child(node(n, k), gw(c, n + k + 1)))), node(n, k + 1))))


def fs(c):
    return tg(c).m_fetch_stack


FETCHPOST = [
    ('stack is the longest path', lambda c: And(
        fs(c).size >= 1, fs(c).size <= glen(c) - c.a('first'),
        forall(lambda k: (implies(And(0 <= k, k < fs(c).size), And(
            fs(c)[k] == node(c.a('first'), k), node(c.a('first'), k) >= 0,
            node(c.a('first'), k) < nsize(c))), [fs(c)[k], node(c.a('first'), k)])),
        implies(fs(c).size < glen(c) - c.a('first'), node(c.a('first'), fs(c).size) < 0)))]

fetch_gram = Spec(
    'TreeGram::fetch_gram(std::deque<int, std::allocator<int>> const&, int)', unit='TreeGram.cc',
    requires=[('first', lambda c: And(c.a('first') >= 0, c.a('first') < glen(c))),
              ('gram words are known', gram_ok), ('definition of the path', node_def)] + WF,
    assigns=lambda c: [tg(c).loc('m_fetch_stack')],
    exits=lambda c: z3.BoolVal(False),
    ensures=FETCHPOST,
    loops=[Loop([
        ('stack so far', lambda c: And(
            fs(c).size >= 0, fs(c).size <= glen(c) - c.a('first'),
            c.v('i') == c.a('first') + fs(c).size,
            forall(lambda k: (implies(And(0 <= k, k < fs(c).size), And(
                fs(c)[k] == node(c.a('first'), k), node(c.a('first'), k) >= 0,
                node(c.a('first'), k) < nsize(c))), [fs(c)[k], node(c.a('first'), k)])),
            c.v('prev') == If(fs(c).size == 0, -1, node(c.a('first'), fs(c).size - 1))))])])


def found(c, n):
    """gram[n..] is in the model"""
    return node(n, glen(c) - n - 1) >= 0


def bo_def(c):
    """definition of the back-off recursion for suffix n of the gram"""
    L = glen(c)
    return forall(lambda n: (implies(And(0 <= n, n < L), BO(n) == If(
        found(c, n), lp(c, node(n, L - n - 1)),
        If(node(n, L - n - 2) >= 0, bow(c, node(n, L - n - 2)), z3.RealVal(0)) + BO(n + 1))), BO(n)))


def mono(c):
    """a missing prefix has no extension (follows from the definition of the path by induction)"""
    return forall(lambda n, j, k: (implies(And(0 <= j, j <= k, node(n, j) < 0), node(n, k) < 0),
                                   [(node(n, j), node(n, k))]))


log_prob_bo = Spec(
    'TreeGram::log_prob_bo(std::deque<int, std::allocator<int>> const&)', unit='TreeGram.cc',
    requires=[('gram words are known', gram_ok), ('definition of the path', node_def),
              ('a missing prefix has no extension', mono),
              ('definition of the back-off recursion', bo_def)] + WF,
    assigns=lambda c: [tg(c).loc('m_fetch_stack'), tg(c).loc('m_last_order')],
    exits=lambda c: z3.BoolVal(False),
    ensures=[
        ('equals the back-off recursion', lambda c: c.result == BO(0)),
        ('order of the match', lambda c: And(
            tg(c).m_last_order >= 1, tg(c).m_last_order <= glen(c),
            found(c, glen(c) - tg(c).m_last_order),
            forall(lambda n: (implies(And(0 <= n, n < glen(c) - tg(c).m_last_order), Not(found(c, n))),
                              BO(n)))))],
    loops=[Loop([
        ('partial sum', lambda c: And(c.v('n') >= 0, c.v('n') < glen(c), c.v('log_prob') + BO(c.v('n')) == BO(0))),
        ('longer suffixes absent', lambda c: forall(lambda n: (implies(
            And(0 <= n, n < c.v('n')), Not(found(c, n))), BO(n))))])])

POW = z3.Function('pow', R, R, R)


def p10(x):
    return POW(z3.RealVal(10), x)


def ip_def(c):
    """interpolation recursion over suffixes of length n"""
    L = glen(c)

    def nd(n, k):
        return node(L - n, k)
    return And(IP(0) == 0, forall(lambda n: (implies(And(1 <= n, n <= L), IP(n) == If(
        nd(n, n - 1) >= 0,
        p10(lp(c, nd(n, n - 1))) + If(n > 1, p10(bow(c, nd(n, n - 2))) * IP(n - 1), z3.RealVal(0)),
        If(And(n > 1, nd(n, n - 2) >= 0), p10(bow(c, nd(n, n - 2))) * IP(n - 1), IP(n - 1)))), IP(n))))


def minlen(c):
    m = tg(c).m_order
    return If(glen(c) < m, glen(c), m)


def safelog(x):
    f = z3.Function('log10', R, R)
    return If(x > z3.RealVal('1/' + '1' + '0' * 60), f(x), z3.RealVal(-60))


log_prob_i = Spec(
    'TreeGram::log_prob_i(std::deque<int, std::allocator<int>> const&)', unit='TreeGram.cc',
    requires=[('gram words are known', gram_ok), ('order', lambda c: tg(c).m_order >= 1),
              ('definition of the path', node_def),
              ('a missing prefix has no extension', mono),
              ('definition of the interpolation recursion', ip_def)] + WF,
    assigns=lambda c: [tg(c).loc('m_fetch_stack'), tg(c).loc('m_last_order')],
    exits=lambda c: z3.BoolVal(False),
    ensures=[
        ('equals the interpolation recursion', lambda c: c.result == safelog(IP(minlen(c)))),
        ('order of the match', lambda c: And(
            tg(c).m_last_order >= 0, tg(c).m_last_order <= minlen(c),
            implies(tg(c).m_last_order > 0, found(c, glen(c) - tg(c).m_last_order)),
            forall(lambda n: (implies(And(tg(c).m_last_order < n, n <= minlen(c)),
                                      Not(found(c, glen(c) - n))), IP(n)))))],
    loops=[Loop([
        ('partial probability', lambda c: And(c.v('n') >= 1, c.v('n') <= minlen(c) + 1,
                                              c.v('looptill') == minlen(c),
                                              c.v('prob') == IP(c.v('n') - 1))),
        ('order so far', lambda c: And(
            tg(c).m_last_order >= 0, tg(c).m_last_order < c.v('n'),
            implies(tg(c).m_last_order > 0, found(c, glen(c) - tg(c).m_last_order)),
            forall(lambda n: (implies(And(tg(c).m_last_order < n, n < c.v('n')),
                                      Not(found(c, glen(c) - n))), IP(n)))))])])
