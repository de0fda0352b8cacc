import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
C = Check('H05')
for f in pyfns('h05.py'): C.pyjob('h05.py', f)
sys.exit(C.finish())
