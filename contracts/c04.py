from . import c02, c03
