"""run.py CXX | --replay FILE"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(core.replay(sys.argv[2]))
    sys.exit(core.main(sys.argv[1]))
