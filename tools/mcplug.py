import sys, types; sys.path[:0]=['/verif','/repo']
sys.dont_write_bytecode=True
from mc.standins import install; install(torch=True)
from mc import optim; optim.install()
import unittest.mock as um
m=types.ModuleType('mock'); m.__dict__.update({k:getattr(um,k) for k in dir(um) if not k.startswith('__')}); sys.modules['mock']=m
for n in ('matplotlib','matplotlib.pyplot','matplotlib.image','matplotlib.axes','matplotlib.figure'):
    if n not in sys.modules: sys.modules[n]=um.MagicMock(name=n)
for n in ('IPython','IPython.display'):
    if n not in sys.modules:
        mm=types.ModuleType(n); sys.modules[n]=mm
class Image:
    def __init__(s,*a,**k): pass
sys.modules['IPython.display'].Image=Image; sys.modules['IPython'].display=sys.modules['IPython.display']
import mc.engine
mc.engine.load()
