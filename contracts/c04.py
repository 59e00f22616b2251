"""C04: byte-order conversion."""
import z3
from sym import Spec, Loop, Ptr
from spec import forall, implies, And, Or, Not, If


def buf(c, i):
    return c.ld(c.a('buf').step(1, i), 'i8')


def ptrs(eng, args, names, st):
    args[0] = args[0].newstep(1, z3.IntVal(0))
    return args


def cur(c):
    """distance of the running pointer from the start of the buffer"""
    return c.v('ptr').idx[-1]


def swapped(c, base, n, k):
    """content of byte k of one element [base, base+n) after i swaps"""
    i = c.v('i')
    return If(And(k >= base, k < base + n, Or(k < base + i, k >= base + n - i)),
              buf(c.pre, 2 * base + n - 1 - k), buf(c.pre, k))


convert = Spec(
    'Endian::convert(void*, int)', unit='Endian.cc',
    requires=[('size', lambda c: c.a('bytes') >= 0)],
    ptrs=ptrs, modular=False, overflow=True,
    assigns=lambda c: [c.a('buf')],
    ensures=[
        ('bytes reversed', lambda c: forall(lambda i: implies(
            And(i >= 0, i < c.a('bytes')), buf(c, i) == buf(c.old, c.a('bytes') - 1 - i)))),
        ('outside unchanged', lambda c: forall(lambda i: implies(
            Or(i < 0, i >= c.a('bytes')), buf(c, i) == buf(c.old, i))))],
    loops=[Loop([
        ('range', lambda c: And(c.v('i') >= 0, 2 * c.v('i') <= c.a('bytes'))),
        ('swapped', lambda c: forall(lambda k: buf(c, k) == swapped(c, z3.IntVal(0), c.a('bytes'), k)))])])


# element e occupies bytes [e*(bytes+skip), e*(bytes+skip)+bytes)
pos = z3.Function('elem_pos', z3.IntSort(), z3.IntSort())     # start of element e (= e * stride)


def stride(c):
    return c.a('bytes') + c.a('skip')


def done(c):
    """number of finished elements: ghost, elems_at_entry - elems"""
    return c.old_elems() if False else None


def elems0(c):
    return c.a('elems')


def outer(c):
    e = c.a('elems') - c.v('elems')
    return e


def target(c, k, upto, e):
    """k lies in element e < upto"""
    return And(e >= 0, e < upto, k >= pos(e), k < pos(e) + c.a('bytes'))


convert_buffer = Spec(
    'Endian::convert_buffer(void*, int, int, int)', unit='Endian.cc',
    requires=[('sizes', lambda c: And(c.a('bytes') >= 0, c.a('skip') >= 0)),
              # definition of elem_pos for this stride
              ('positions', lambda c: And(pos(0) == 0, forall(lambda e: (
                  pos(e + 1) == pos(e) + stride(c), pos(e)))))],
    ptrs=ptrs, modular=False,
    assigns=lambda c: [c.a('buf')],
    ensures=[
        ('each element reversed', lambda c: forall(lambda e, k: implies(
            target(c, k, c.a('elems'), e),
            buf(c, k) == buf(c.old, 2 * pos(e) + c.a('bytes') - 1 - k)))),
        ('gaps and outside unchanged', lambda c: forall(lambda k: implies(
            forall(lambda e: Not(target(c, k, c.a('elems'), e))), buf(c, k) == buf(c.old, k))))],
    loops=[
        Loop([
            ('count', lambda c: And(c.v('elems') <= c.a('elems'), Or(c.v('elems') >= 0, c.a('elems') < 0))),
            ('position', lambda c: implies(c.a('elems') >= 0, cur(c) == pos(outer(c)))),
            ('stays', lambda c: implies(c.a('elems') < 0, And(c.v('elems') == c.a('elems')))),
            ('monotone', lambda c: forall(lambda e: implies(
                And(e >= 0, e < outer(c)), pos(e) + c.a('bytes') <= pos(outer(c))))),
            ('finished elements', lambda c: forall(lambda e, k: implies(
                target(c, k, outer(c), e),
                buf(c, k) == buf(c.old, 2 * pos(e) + c.a('bytes') - 1 - k)))),
            ('rest unchanged', lambda c: forall(lambda k: implies(
                forall(lambda e: Not(target(c, k, outer(c), e))), buf(c, k) == buf(c.old, k)))),
        ]),
        Loop([
            ('range', lambda c: And(c.v('i') >= 0, 2 * c.v('i') <= c.a('bytes'))),
            ('swapped', lambda c: forall(lambda k: buf(c, k) == swapped(c, cur(c), c.a('bytes'), k)))])])

SPECS = [convert, convert_buffer]
HARNESS = 'c04.cc'
BOUNDED = 'all sizes 0..9, 0..6 elements, gaps 0..5, plus random sizes <=700, counts <=800, gaps <=70000, random contents with guard bytes; involution; node flip'
BOUNDED_FUNCTIONS = ['TreeGram::flip_endian']
ASSUMPTIONS = ['element sizes and gaps are non-negative']
