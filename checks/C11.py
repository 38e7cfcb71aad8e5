import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib
from e2e import rpc


def body(c):
    c.assumptions = ["values that encoding/json represents exactly (no NaN, no invalid UTF-8, nil and empty slices are the same value), arguments below the HTTP header limit"]
    c.coverage["rule"] = "a case is a method of a random service called through a deployment of it; results are compared with a direct invocation"
    rpc.check(c, "http", [c.seed * 1000 + i for i in range(12 if c.thorough else 3)], n=4, calls=60 if c.thorough else 25, workers=5)


vlib.main("C11", body)
