"""C11 SMT bit-vectors denote the same function as the concrete ones."""
from .. import fmcases
fmcases.define('C11', 'smt')
