import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib


def body(c):
    c.assumptions = ["the processes and the go command are stand-ins that record how they were started"]
    c.workspace()
    c.shards(c.build("./cmd/c15"), 8, race=False)


vlib.main("C15", body)
