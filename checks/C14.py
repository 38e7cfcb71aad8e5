import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib
from e2e import gogen


def body(c):
    c.assumptions = ["what a Go package means is decided by go/types, what compiles by the go command",
                     "protoc-gen-go-grpc is a stand-in; names that .proto files cannot hold are not used over gRPC"]
    c.coverage["rule"] = "a case is a generated Go module that is parsed and compared with go/types, or a workflow that is compiled with every generated wrapper and then built"
    c.workspace()
    b = c.build("./cmd/c14")
    c.shards(b, 8, race=False)
    gogen.check(c, "http")
    gogen.check(c, "grpc")


vlib.main("C14", body)
