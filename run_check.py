import sys
import os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import run
if __name__ == '__main__':
    sys.exit(run.main(sys.argv[1:]))
