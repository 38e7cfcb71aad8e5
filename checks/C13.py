import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib
from e2e import resil


def body(c):
    c.assumptions = ["github.com/mercari/go-circuitbreaker is not available here: a stand-in with its documented behaviour is linked instead",
                     "requests during which a process was not scheduled for 35 ms are not judged against timeouts; timing-dependent violations have to occur in two runs"]
    c.coverage["rule"] = "a case is a service behind a stack of modifiers; its requests follow a script of failures and delays"
    resil.check(c, 14 if c.thorough else 3)


vlib.main("C13", body)
