"""setup_cmd: checks that the toolchain is there and that the overlay applies to it."""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from common import *
w = Work("setup")
w.mkoverlay()
shutil.rmtree(w.dir, ignore_errors=True)
print("ok")
