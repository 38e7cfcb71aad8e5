import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib
from e2e import determ


def body(c):
    c.assumptions = ["`go mod tidy` fails without network access; its effect on the output is not judged",
                     "faults are errors of the system calls that open, create, write and copy generated files and directories, and failing protoc tools"]
    c.coverage["rule"] = "a case is a wiring spec that is compiled several times, one with similar or unusual names, an output directory that exists, or an injected fault"
    determ.check(c)


vlib.main("C16", body)
