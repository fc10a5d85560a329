"""C12: the trace loop."""
from . import trace
