import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
C = Check('H04')
for f in pyfns('h04.py'): C.pyjob('h04.py', f)
sys.exit(C.finish())
