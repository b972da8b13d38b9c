import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.main(sys.argv[1:])
