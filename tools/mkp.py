import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkprop import *
exec(open(sys.argv[1]).read())
