#!/opt/venv/bin/python
"""run_check.py C01   run the check of one property (tier and seed from VERIF_TIER, VERIF_SEED)
   run_check.py --replay FILE   re-run one shrunk case without Hypothesis"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import core
if __name__ == '__main__':
    if sys.argv[1] == '--selftest':
        core.import_repo()
        print('engine ready: Hypothesis', core.hypothesis.__version__, 'package from', core.REPO)
        sys.exit(0)
    if sys.argv[1] == '--replay':
        sys.exit(core.replay(os.path.join(core._CWD, sys.argv[2])))
    sys.exit(core.main(sys.argv[1]))
