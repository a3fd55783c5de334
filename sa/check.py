import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from registry import REG
if __name__ == "__main__":
    core.main(REG)
