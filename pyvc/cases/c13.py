"""C13 z3 bit-vectors denote the same function as the concrete ones."""
from .. import fmcases
fmcases.define('C13', 'z3')
