"""python3 checks/run.py <PROPERTY-ID>: decide one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from rules import RULES

if __name__ == "__main__":
    pid = sys.argv[1]
    sys.exit(lib.main(pid, RULES.get(pid, [])))
