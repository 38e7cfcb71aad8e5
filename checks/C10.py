import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib
from e2e import addr


def body(c):
    c.assumptions = ["docker-compose and kubernetes are emulated: the environments of containers and pods are computed from the generated files, and containers and pods are loopback addresses",
                     "a client in a container reaches servers outside of its deployment at the machine's address (the user adjusts localhost in .local.env)",
                     "prebuilt images listen on their usual ports"]
    c.coverage["rule"] = "a case is a generated deployment, a base port, or a generated deployment file"
    addr.check(c)


vlib.main("C10", body)
