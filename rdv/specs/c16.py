"""C16: PGM files."""
from specs.pgm import *
from specs.stream import TEXT
