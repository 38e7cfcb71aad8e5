import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib

def body(c):
    c.assumptions = ["only the IR is inspected here; the behaviour of the generated wrappers is C11-C13"]
    c.workspace(extra_uses=[os.path.join(vlib.VERIF, "wf")])
    b = c.build("./cmd/c09", race=False)
    c.shards(b, race=False, timeout=800 if not c.thorough else 7200)

vlib.main("C09", body)
