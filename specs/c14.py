"""C14: malformed argument text terminates with exit status 87."""
from specs import c13
from specs.c13 import *

TITLE = 'creation of an operation and the C entry points on accepted and rejected text'
REPLAY = {'main': 'replay_c14.cpp', 'sources': [s for s in build.LIBSRC if s != 'lib/eni.cpp']}
UNITS = {'creation': lambda c: c13.unit_history(c, 'h_create', 'C14'), 'any history of requests': lambda c: c13.unit_history(c, 'h_history', 'C14')}
