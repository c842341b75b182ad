import sys

from vf.core import main

sys.exit(main(sys.argv))
