import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
C = Check('H02')
for f in pyfns('h02.py'): C.pyjob('h02.py', f)
sys.exit(C.finish())
