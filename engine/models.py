"""Names used by the interpreter."""
from .ops import *
from .ops import sym_dict, delitem
from .nplib import value_attr, special_getitem
