"""C07: the frame of every contract of C08 (nothing that exists is written)."""
from . import c08
