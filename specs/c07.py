"""C07: the vector is the specified sequence after every operation."""
from eniv.spec import *
from eniv import vec

TITLE = 'every member function of Vector and PointerIterator, for an arbitrary vector, at an opaque element type and at int'
REPLAY = {'main': 'replay_c07.cpp', 'sources': build.LIBSRC}
ASSUMPTIONS = ['element copies, assignments and destructions behave as such and do not throw', 'calloc succeeds; realloc may fail',
               'a range argument does not lie inside the vector it is assigned or inserted to', 'libstdc++ layout of std::vector (begin, end, end of storage)']
UNITS = vec.units('C07')
