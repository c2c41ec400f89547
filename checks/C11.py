"""C11: CCNfree releases exactly the tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from copyfree import *
explore(Check("C11"), "free")
