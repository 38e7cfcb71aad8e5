#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have a checks/<id>.py."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "race detector + linearizability checking of recorded histories (porcupine) + differential reference map",
 "C02": "race detector + FIFO/exactly-once/conservation trace checker over recorded histories + stall detector",
 "C03": "differential monitor: random operation sequences against an independent MongoDB-semantics oracle, full state read back after each step",
 "C04": "race detector + linearizability and conservation checks over concurrent histories + aliasing probes",
 "C05": "race detector + online exclusivity/bound monitor on build, Pop and Push events + stall detector",
 "C06": "race detector + event-log monitor of builds, Runs and shutdown on generated namespaces",
 "C07": "race detector + exactly-once/proportion/conservation checker over workload runs and the written statistics",
 "C08": "online monitor of build-function events and IR checker over randomly generated wiring specs",
 "C09": "IR path checker and executed call chains over randomly generated modifier stacks and placements",
 "C10": "offline checker over generated deployment artefacts: every dial resolved against every bind",
 "C11": "differential execution: generated programs (monolith, HTTP, split) against direct invocation, with -race",
 "C12": "differential execution: generated gRPC programs against direct invocation, with -race",
 "C13": "trace monitor of generated wrappers under scripted faults and concurrent callers, with -race",
 "C14": "go compiler as oracle for generated code; parsed types compared with go/types on generated modules",
 "C15": "executions of generated run.sh scripts with recording stand-ins, checked against the process graph",
 "C16": "repeated compilations of generated specs compared byte by byte; collision and fault workloads",
 "C17": "span and vector-clock trace checker over executions of generated traced programs",
 "C18": "model-based trace checker over random request histories of the SockShop services",
 "C19": "model-based trace checker over random and concurrent request histories of the hotel services",
 "C20": "model-based trace checker + race detector over random and concurrent request histories of the social network services",
 "C21": "differential monitor against a reflective specification over random types and values",
 "C25": "model-based trace checker with injected database and queue failures + race detector over request histories of the TrainTicket services",
 "C24": "differential monitor against model tables + conservation and failure checks over concurrent statements",
 "C22": "race detector + exactly-once monitor over registration/Get histories; generated fixtures executed",
}
NA = {
 "C23": "there is no Thrift compiler or library, and the X-Trace dependency cannot be fetched: neither kind of program can be built here, so there is no execution to observe",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append(dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="VERIF_TIER=thorough ./check.sh " + i,
            technique=T[i], level="exploration",
            level_note="the property held on the executions that were observed (see the evidence file); it trusts the Go toolchain and the monitor's model"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
