"""C02: traversals of the count store visit every entry exactly once."""
import smat
from smat import configure
SPECS = smat.STEP + [smat.remove]
HARNESS = 'c02.cc'
HFLAGS = ['-fsanitize=address']
BOUNDED = ('random stores (<=400 entries) traversed unordered with random deletions and in order, against std::map, under '
           'AddressSanitizer')
BOUNDED_FUNCTIONS = ['sikMatrix<K,V>::stepthrough, ordered_stepthrough, stept, delete_current_st']
