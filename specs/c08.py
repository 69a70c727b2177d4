"""C08: accesses stay inside the buffer; invalid positions and sizes are reported."""
from eniv.spec import *
from eniv import vec

TITLE = 'every member function of Vector, for an arbitrary vector and arbitrary positions and sizes, at an opaque element type and at int'
REPLAY = {'main': 'replay_c07.cpp', 'sources': build.LIBSRC, 'flags': ['-DC08']}
ASSUMPTIONS = ['element copies, assignments and destructions behave as such and do not throw', 'calloc succeeds; realloc may fail',
               'a range argument does not lie inside the vector it is assigned or inserted to', 'libstdc++ layout of std::vector (begin, end, end of storage)']
UNITS = vec.units('C08')
