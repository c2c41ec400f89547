"""C10: CCNcopy makes an equal and independent tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from copyfree import *
explore(Check("C10"), "copy")
