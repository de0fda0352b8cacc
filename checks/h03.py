import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
C = Check('H03')
for f in pyfns('h03.py'): C.pyjob('h03.py', f)
sys.exit(C.finish())
