import sys
import warnings

warnings.simplefilter('ignore')
from .report import main

sys.exit(main(sys.argv[1:]))
