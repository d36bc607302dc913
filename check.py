import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from rvm.core import main
if __name__ == "__main__":
    sys.exit(main())
