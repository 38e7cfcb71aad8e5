import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib
vlib.simple("C01", "c01", assumptions=["values written on counter keys are int64"])
