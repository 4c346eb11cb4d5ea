import sys
from . import main
sys.exit(main.main(sys.argv[1:]))
