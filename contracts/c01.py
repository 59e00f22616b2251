"""C01: the sparse count store is an exact map with a default value."""
import smat
from smat import configure
SPECS = smat.SPECS
HARNESS = 'c01.cc'
HFLAGS = ['-fsanitize=address']
BOUNDED = ('random operation sequences on sikMatrix<int|unsigned short, int|float|double|struct> and the C interface against '
           'std::map (hash sizes 0..3000, colliding keys, up to 2500 keys and 20000 operations), under AddressSanitizer')
BOUNDED_FUNCTIONS = ['sikMatrix<K,V>: all methods']
