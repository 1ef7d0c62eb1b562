# rt.py FILE...: run pytest over files with an ipyflow shell in process, from $VP_CORE
import os,sys
core=os.environ.get("VP_CORE","/repo/core")
sys.path.insert(0, core); os.chdir(core)
sys.dont_write_bytecode=True
from ipyflow.shell import IPyflowInteractiveShell
import ipyflow; assert ipyflow.__file__.startswith(core), ipyflow.__file__
IPyflowInteractiveShell.instance()
import pytest
sys.exit(pytest.main(["-q","-p","no:cacheprovider","--no-header","--tb=short","-W","ignore"]+sys.argv[1:]))
