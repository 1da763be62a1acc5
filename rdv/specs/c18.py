"""C18: Y4M streams."""
from specs.y4m import *
from specs.stream import TEXT
