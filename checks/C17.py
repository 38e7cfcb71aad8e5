import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib
from e2e import trace


def body(c):
    c.assumptions = ["the collectors are stand-ins that decode what zipkin's and jaeger's would receive",
                     "errors are returned without results over http and grpc, so replies of failing calls carry no vector clock"]
    c.coverage["rule"] = "a case is an application with random services, instrumentation, processes and wrappers, and 150 (thorough: 600) random call trees"
    trace.check(c)


vlib.main("C17", body)
