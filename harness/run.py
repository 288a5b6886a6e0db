import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
sys.modules["core"] = core
sys.exit(core.main(sys.argv[1:]))
