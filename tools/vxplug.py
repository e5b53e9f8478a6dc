import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib.util
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from vx import instrument as I, core
sys.path.pop()
I.install(root=os.environ.get("VXROOT","/repo/src"))
import psrpcore
for n in ('datetime','uuid'):
    sys.modules[n]=I.REPLACED[n]
