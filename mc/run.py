import os
import sys
from mc.core import main
rc = main(sys.argv)
sys.stdout.flush()
sys.stderr.flush()
# what compiled libraries still hold in their buffers is not for the reader
nul = os.open(os.devnull, os.O_WRONLY)
os.dup2(nul, 1)
os.dup2(nul, 2)
sys.exit(rc)
