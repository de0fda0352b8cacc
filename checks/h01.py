import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
C = Check('H01')
for f in pyfns('h01.py'): C.pyjob('h01.py', f)
sys.exit(C.finish())
