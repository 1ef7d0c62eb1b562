import sys; sys.path.insert(0,'/verif')
from checks.common import *
from checks import c09
from sa.rules import Ctx
from sa.index import Index
ctx=Ctx("X","quick",1,Index())
exec(open('/tmp/q_body.py').read())
