"""setup_cmd: builds the engine and the encoding of /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vf import core
print(core.build_all())
