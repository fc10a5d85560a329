"""C11: the trace loop."""
from . import trace
