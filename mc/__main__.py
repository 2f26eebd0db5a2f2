import sys
from .core import run
sys.exit(run(sys.argv[1], sys.argv[2:]))
