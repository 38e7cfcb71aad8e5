#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the prose source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "The in-memory cache is a linearizable key-value map with atomic counters",
  "Every concurrent history of Put, Get, Delete, Incr, Mset and Mget on the in-memory cache is linearizable, key by key, to a plain map on which Incr atomically adds one (an absent key counts as 0, values on counter keys are int64) and returns the new value; Mset and Mget act on every listed key (keys and values paired by position) and reject length mismatches without effect. A read stores exactly the last written value, or reports absence and leaves the destination untouched. No history makes the cache race, crash or deadlock.",
  ["schedules","histories","inputs"],
  "all interleavings of any number of clients over any keys and value types",
  "The unit tests run one goroutine over three fixed keys; they cannot see lost increments, racy reads or torn batches.",
  ["runtime/plugins/simplecache/cache.go","runtime/core/backend/cache.go","runtime/core/backend/reflect.go"],
  [("RWMutex around the map","runtime/plugins/simplecache/cache.go"),("CopyResult","runtime/core/backend/reflect.go")],
  ["backend.Cache calls at the client boundary (call/return events)"],
  [("values","the key-value map","simplecache.SimpleCache")])

p("C02", "The in-memory queue is FIFO, bounded and exactly-once under cancellation",
  "Every item whose Push reports true is delivered by exactly one Pop, in an order consistent with a single FIFO queue; an item whose Push reports false is never delivered, and a Pop that reports false consumes nothing and leaves its destination untouched. At most 10 accepted items are outstanding: Push blocks while 10 are held and Pop blocks while none is, each returning (false, nil) once its context is cancelled, and neither blocks when it can proceed (even with an already cancelled context). Concurrent use never races, deadlocks or loses a wake-up.",
  ["schedules","histories","fault_sequences"],
  "all interleavings of producers, consumers and context cancellations",
  "The unit tests push and pop a handful of items from one or two goroutines; conservation and order under concurrent cancellation are never exercised.",
  ["runtime/plugins/simplequeue/queue.go","runtime/core/backend/queue.go"],
  [("buffered channel + select on ctx.Done","runtime/plugins/simplequeue/queue.go")],
  ["backend.Queue calls at the client boundary"])

p("C03", "The in-memory document store implements MongoDB filter and update semantics",
  "For every sequence of inserts, finds, updates, replaces, upserts and deletes, the in-memory document store returns what a MongoDB collection would for the operators it supports (field, dotted and array-index paths with array broadcasting; exact document and array values; $eq $ne $in $exists $regex $all $elemMatch $and $or $nor $not, numeric $gt $gte $lt $lte; $set $unset $inc $push $pull $addToSet): the same documents, in insertion order, with update counts that are the numbers of matched documents, and the ..One forms touch only the first match. Replacing or updating a document never changes which other documents exist; a replaced document keeps its _id when the replacement has none, and inserts without _id receive a fresh unique one. Unsupported or malformed operators and failing updates yield an error and change nothing (not even part of an UpdateMany or InsertMany), never a silently wrong result or a panic.",
  ["inputs","histories"],
  "all documents, filters, updates and operation sequences over the supported operator subset",
  "The unit tests evaluate a few dozen hand-written queries over one fixed data set; operator combinations, absent fields, nested arrays and failed operations are not covered.",
  ["runtime/plugins/simplenosqldb/nosqldb.go","runtime/plugins/simplenosqldb/query/filter.go","runtime/plugins/simplenosqldb/query/parsefilter.go","runtime/plugins/simplenosqldb/query/update.go","runtime/plugins/simplenosqldb/query/parseupdate.go","runtime/core/backend/nosqldb.go"],
  [("ParseFilter / ParseUpdate","runtime/plugins/simplenosqldb/query"),("SimpleCollection","runtime/plugins/simplenosqldb/nosqldb.go")],
  ["backend.NoSQLCollection calls and the collection contents read back"])

p("C04", "Document store operations are atomic, isolated and free of aliasing",
  "Concurrent operations on one in-memory document database (including first access to the same collection) are atomic: every history is linearizable to the sequential document store, so no insert, increment, upsert or delete is lost or duplicated. Documents handed in and results handed out are copies: mutating an inserted value, filter, update or a returned result afterwards never changes stored documents, and a cursor's results are those of the time of the find regardless of later operations. Collections with different (database, collection) names never share documents, and no history races, crashes or deadlocks.",
  ["schedules","histories"],
  "all interleavings of clients, and all caller mutations of inputs and outputs",
  "Every existing test uses the store from one goroutine and never mutates a document after handing it over.",
  ["runtime/plugins/simplenosqldb/nosqldb.go"],
  [("in-memory items slice","runtime/plugins/simplenosqldb/nosqldb.go")],
  ["backend.NoSQLCollection calls at the client boundary"],
  [("items","stored documents","SimpleCollection")])

p("C05", "The client pool hands out at most N clients, exclusively, and never leaks a slot",
  "A pool of capacity N never has more than N live clients; a client obtained by Pop is held by that caller alone until it is pushed back, and a new client is built only when none is idle and fewer than N exist. A failed build is reported to its caller and frees its slot; a Pop whose context ends while waiting returns an error and takes nothing. Whenever a client becomes idle or a slot frees up, some waiting Pop proceeds; after all clients are returned Size equals the number successfully built, Available equals Size, and use is free of races and deadlocks.",
  ["schedules","fault_sequences","histories"],
  "all interleavings of Pop/Push, build failures, slow builds and context cancellations",
  "The unit tests use a few goroutines with builds that always succeed; failed builds with waiters and cancellations are not exercised.",
  ["runtime/plugins/clientpool/clientpool.go"],
  [("channel of idle clients and an atomic size counter","runtime/plugins/clientpool/clientpool.go")],
  ["build callback, Pop and Push boundary events; Size/Available/Capacity at quiescence"])

p("C06", "The runtime namespace builds each node once with resolved arguments and shuts down cleanly",
  "In a running process every named node is successfully built at most once, by the definition registered for it (the latest one registered under that name), however many callers request it, in any order and concurrently, and all receive the same instance; a name unknown locally is resolved from the parent namespace, and an unknown name or failing build is reported as an error to every requester. Arguments resolve by precedence explicit value, command-line flag, environment variable, and missing required arguments make the build fail naming each of them. Nodes that can run are started once on instantiation; a failing Run, cancelling, interrupting or shutting down the namespace cancels every running node including those of nested namespaces, and awaiting returns only after all of them have returned.",
  ["configurations","schedules","fault_sequences"],
  "all node graphs, argument sources, nesting, concurrent requests, and shutdown points",
  "Existing tests build a few small namespaces from a single goroutine.",
  ["runtime/plugins/golang/namespace.go","runtime/plugins/golang/runnable.go"],
  [("NamespaceBuilder / Namespace.Get","runtime/plugins/golang")],
  ["build functions, Run methods, and Namespace Get/Await/Shutdown results"])

p("C07", "The workload generator issues and accounts for every request exactly once",
  "Over any run, the workload engine starts requests only of registered operations, in the proportions given when they were registered, at the target average rate, and every request that it starts is executed exactly once and recorded exactly once with exactly the start time, duration and error status that its operation returned; one request's outcome is never attributed to another. Runs finish by themselves after the configured duration with all started requests accounted for, and the written statistics file has exactly one row per recorded request. Non-positive rates and operation mixes that cannot be scheduled are rejected; use is free of races, crashes and deadlocks.",
  ["schedules","configurations","fault_sequences"],
  "all registered operation mixes, rates, durations, and failing or slow operations",
  "No existing test runs the workload engine at all.",
  ["runtime/core/workload"],
  [("Engine.RunOpenLoop","runtime/core/workload")],
  ["operation callbacks versus recorded statistics"])

p("C08", "A wiring spec compiles to an IR with each declared node once, fully wired",
  "Building a wiring spec yields an application in which every requested node and everything it transitively depends on appears exactly once per namespace that accepts it, in the innermost enclosing namespace that accepts its type and scope, with each dependency connected to the instance that name resolves to (aliases and pointers followed to the end); nodes not needed by the requested ones are not built, and each build function runs at most once per owning namespace. Nodes used across a namespace boundary appear as that namespace's arguments/edges in its parents. Any error raised by a build function, an undefined name, a cyclic alias or a bad property is returned to the caller rather than swallowed, and compiling the same spec twice gives the same application.",
  ["programs","configurations","fault_sequences"],
  "all wiring specs: node graphs, namespace nestings, aliases, pointers, deferred builds and failing build functions",
  "test/wiring compares a few dozen fixed specs against stored expected strings and ignores failing builds, nested scopes and repeated compilation.",
  ["blueprint/pkg/wiring","blueprint/pkg/coreplugins/pointer","blueprint/pkg/coreplugins/address","blueprint/pkg/ir","blueprint/pkg/blueprint"],
  [("namespaceimpl.Get/Instantiate","blueprint/pkg/wiring/namespace.go"),("wiringSpecImpl","blueprint/pkg/wiring/wiring.go")],
  ["build function calls and the resulting IR tree"])

p("C09", "Modifiers apply in wiring order and visibility rules are enforced",
  "Client-side modifiers of a service apply in declaration order, the first declared outermost (closest to the caller) and the RPC client last; each declared server-side modifier wraps those declared before it, the RPC server outermost. Every call path from a client to the service traverses each declared modifier exactly once in that order, within its own process, and crosses into another process only through the service's network client, address and server; every process and container holding such a client or server lists its address configuration among its arguments. A service is instantiated in the process and container it was deployed to. A service that would be reached from several processes (or client pools) without a network interface, or would need more instances than its uniqueness permits, or whose modifiers are declared in an impossible order (golang-level modifiers after its network deployment) or on something that isn't a service, is rejected with an error rather than compiled into a different topology, and legal combinations are accepted.",
  ["programs","configurations"],
  "all sequences of modifiers, all placements of services into processes and containers",
  "test/wiring has single-modifier examples; modifier orders and illegal placements are not enumerated.",
  ["blueprint/pkg/coreplugins/pointer","plugins/http","plugins/retries","plugins/goproc","plugins/linuxcontainer","plugins/workflow"],
  [("PointerDef.AddSrcModifier/AddDstModifier","blueprint/pkg/coreplugins/pointer/pointer.go"),("uniqueness / reachability checks","blueprint/pkg/coreplugins/pointer")],
  ["the IR produced by compiling generated specs"])

p("C10", "Server and client addresses agree in every generated deployment",
  "For every compiled application, each server is bound to an address and every client dialing it, in whatever process, container, pod or generated .env/docker-compose/Kubernetes file its configuration is placed, is configured with a host and port that reach precisely that server; no two servers of one host or container get the same port, explicitly requested ports are honoured, and conflicting or invalid port requests are rejected. Every configuration variable that a generated process reads is supplied by the generated deployment (set, passed through, or listed as required), under the same name.",
  ["programs","configurations"],
  "all wiring specs, deployers, placements and port assignments",
  "The existing tests never generate deployment artefacts.",
  ["plugins/dockercompose","plugins/kubernetes","plugins/environment","plugins/linuxcontainer","blueprint/pkg/coreplugins/address"],
  [("port assignment","blueprint/pkg/coreplugins/address"),("env/compose/k8s generation","plugins")],
  ["generated .env, docker-compose and kubernetes files parsed back"])

p("C11", "Deployment choices do not change application results",
  "For every workflow service and arguments, calling it in a generated program returns the same results, and an error exactly when the implementation returned one, whether it is linked into the same process, or reached over generated HTTP clients and servers, and however many processes the services are split over. Values of every supported argument and return type (basic kinds, structs, slices, maps, pointers, nested and user-defined types, zero values included) arrive unchanged and attributed to the right parameter, under concurrent calls too. Every request causes exactly one invocation of the implementation.",
  ["programs","inputs","configurations","schedules"],
  "all workflow interfaces, argument values, process placements and concurrent callers",
  "Existing tests run workflow implementations directly; no test ever executes generated client/server code.",
  ["plugins/http/httpcodegen","plugins/goproc","plugins/golang/gogen","plugins/workflow","plugins/namespaceutil"],
  [("HTTP client/server templates","plugins/http/httpcodegen")],
  ["calls through generated programs versus direct invocation"])

p("C12", "gRPC deployment preserves values and errors",
  "For every workflow service deployed with the gRPC modifier, the generated program compiles and calling through the generated client returns the same results as invoking the implementation directly, and an error exactly when the implementation returned one, for every supported argument and return type (basic kinds, structs, slices and maps of basic and user-defined types, nesting, zero values) and under concurrent calls. Every request causes exactly one invocation of the implementation.",
  ["programs","inputs","schedules"],
  "all workflow interfaces and argument values",
  "No existing test generates or runs gRPC code.",
  ["plugins/grpc/grpccodegen","plugins/grpc"],
  [("marshalling code generation","plugins/grpc/grpccodegen/marshallgen.go")],
  ["calls through generated programs versus direct invocation"])

p("C13", "Resilience modifiers keep their contracts at run time",
  "In generated programs: a retry wrapper repeats a failing call until it succeeds or the configured number of retries is used up and then returns the last error, never retrying a success; a timeout returns an error for calls exceeding the deadline and otherwise the call's own results; a circuit breaker rejects calls while open and passes them while closed; a load balancer spreads calls over all its replicas evenly, each call reaching exactly one of them; a client pool bounds concurrent use of clients by its size; latency and fault injection affect only the configured share of calls. Wrappers forward arguments and results unchanged, compose in any order, and are free of data races and deadlocks under concurrent calls.",
  ["schedules","fault_sequences","configurations"],
  "all call outcomes sequences, concurrent callers, modifier parameters and combinations",
  "No existing test executes a generated wrapper.",
  ["plugins/retries","plugins/timeouts","plugins/circuitbreaker","plugins/loadbalancer","plugins/clientpool","plugins/latencyinjector","plugins/healthchecker"],
  [("code templates of the modifiers","plugins/*/codegen*.go")],
  ["the wrapped implementation's invocations versus caller-visible results, in generated programs built with -race"])

p("C14", "Generated Go code compiles and parsed types mean what Go says",
  "For any workflow module that Go compiles and whose service interfaces use supported types, the compiler accepts it and all generated code compiles: parsed services, constructors, methods, argument and return types (including imports, aliases, pointers, slices, maps, nested packages, multiple modules, embedded structs, generics where used, variadic and unnamed or clashing parameter names) resolve to the same types as the Go type checker's. Invalid workflow references (missing interface, missing constructor, ambiguous or wrong-signature constructor, constructs that the compiler does not support) are reported as errors and neither crash the compiler nor yield a program that fails to build.",
  ["programs","inputs"],
  "all valid Go workflow modules, identifier choices and package layouts",
  "Existing tests parse only the example applications' own sources.",
  ["plugins/golang/goparser","plugins/golang/gogen","plugins/golang/gocode","plugins/workflow/workflowspec"],
  [("goparser","plugins/golang/goparser"),("gogen imports and constructors","plugins/golang/gogen")],
  ["generated modules compiled by the go tool; parsed types compared with go/types"])

p("C15", "Generated run.sh starts every process once, in dependency order, with its arguments",
  "The run.sh of a generated Linux container starts each of its processes exactly once, after the processes and values it depends on, passes each the configured arguments and environment, and waits for all of them. When a required environment variable is missing it reports every missing one and starts nothing; when a process or dependency fails to start, the failure is reported with a non-zero exit status rather than ignored. Values with spaces, quotes or shell metacharacters are passed through literally.",
  ["programs","configurations","fault_sequences"],
  "all process graphs, argument values, missing-variable subsets and start failures",
  "No existing test executes a generated run.sh.",
  ["plugins/linuxcontainer/linuxgen","plugins/linuxcontainer"],
  [("run.sh template","plugins/linuxcontainer/linuxgen")],
  ["executions of the generated script with recording stand-in processes"])

p("C16", "Compilation is deterministic, complete and never overwrites by accident",
  "Compiling the same wiring spec twice produces byte-identical output trees, whatever the Go map iteration order or run; compiling into an output directory that already exists is rejected and leaves it unchanged (or gives exactly what a compilation into a fresh directory gives). Distinct nodes, modules and packages never overwrite one another's generated files, and no file is generated outside of the output directory: names that are alike once they are written as file, variable, host or object names are kept apart or reported as errors, and a name that a generated program or script cannot have is reported as an error. A failure while generating any artefact (a file or directory that cannot be written, a tool that fails) makes the compilation fail with a non-zero exit instead of leaving partial output that looks complete.",
  ["programs","configurations","fault_sequences"],
  "all wiring specs, node names, repeated runs and output-directory states",
  "No existing test generates artefacts, let alone twice.",
  ["plugins/cmdbuilder","blueprint/pkg/ir","blueprint/pkg/wiring","plugins/golang/gogen","blueprint/pkg/coreplugins"],
  [("application generation","blueprint/pkg/ir"),("workspace builders","plugins/golang/gogen")],
  ["output trees of repeated compilations of one spec"])

p("C17", "Trace context and vector clocks propagate along every call",
  "In a program compiled with tracing, each service invocation runs in a span whose parent is the span of the call that caused it and whose trace id is that of the originating request, across generated wrappers and processes, concurrently and for failing calls too; every span is ended exactly once. Vector clocks attached by the logging tracer respect happened-before: the clock at a call's callee is strictly greater than at its caller's send, and the caller's clock after a reply dominates the callee's (for a failing call: when caller and callee share a process).",
  ["schedules","programs"],
  "all call trees, concurrent requests and failing calls",
  "No existing test runs traced programs.",
  ["runtime/plugins/opentelemetry","runtime/plugins/govector","runtime/core/backend/trace.go","plugins/opentelemetry","plugins/govector"],
  [("ot client/server wrappers","plugins/opentelemetry"),("GetSpanContext","runtime/core/backend/trace.go")],
  ["spans and clocks recorded by in-process exporters"])

p("C18", "SockShop carts, orders and catalogue stay consistent",
  "For every sequence of SockShop requests, a session's cart contains exactly the items added minus those removed with summed quantities, a user cart absorbs the session cart on login or registration without loss or duplication, an order is recorded once with the items of the cart that was ordered, the customer's details, address and card, and the total price including shipping, the ordered cart is emptied, the order's shipment is recorded, queued and marked shipped once, and orders of one customer never appear for another. A rejected request (unknown customer, address or card, empty cart, declined payment, wrong password) reports an error and changes nothing. Catalogue listing with tags, order, paging and counts agrees with the catalogue's content, cards are masked for the frontend, and payment is authorised exactly when 0 < amount <= limit.",
  ["histories","inputs","schedules","fault_sequences"],
  "all request sequences over users, sessions, items, tags, pages and amounts, from concurrent users, with failing shipment updates",
  "The example tests run one fixed scenario per service.",
  ["examples/sockshop/workflow"],
  [("cart, order, catalogue, user, payment, shipping, queue master and frontend services","examples/sockshop/workflow")],
  ["service interfaces versus a reference model"])

p("C19", "Hotel reservation never overbooks and search results are truthful",
  "For every sequence of DeathStarBench hotel requests, concurrent ones included and whatever the cache has forgotten, the sum of accepted reservations for a hotel on any night never exceeds its capacity, a reservation is accepted exactly when every night of it has enough rooms left and is then recorded for each of its nights, availability answers agree with capacity minus accepted reservations, and a rejected or invalid reservation (impossible dates, no rooms) changes nothing. Search, rate, geo, profile, recommendation, review, attraction and user answers contain exactly the stored entities that satisfy the query; concurrent queries never race or crash.",
  ["histories","schedules","inputs"],
  "all reservation histories over hotels, date ranges, room numbers and users",
  "The example tests make a couple of reservations on one hotel.",
  ["examples/dsb_hotel/workflow/hotelreservation"],
  [("reservation, search, geo, rate, profile, recommendation, review, attractions, user and frontend services","examples/dsb_hotel/workflow/hotelreservation")],
  ["service interfaces versus a reference model"])

p("C20", "Social network timelines, graph and posts agree with the requests made",
  "For every sequence of DeathStarBench social network requests, concurrent ones included and whatever the caches have forgotten: a composed post gets an ID of its own, is stored once and readable by it with its creator, time, type, media, mentions and text, in which each url is replaced by a short url stored with the original; it appears exactly once in its author's timeline (newest first) and in the home timelines (in order of composition) of the author's followers and mentioned users, and in no other. Reading ranges of timelines returns the requested slice. Follow and unfollow, by ID or name, keep follower and followee lists symmetric and free of repetitions. A user name or ID is registered once, generated IDs are distinct, logins succeed exactly with the registered password and give a signed token for that user; requests for unknown users, and invalid ones, fail and change nothing.",
  ["histories","inputs","schedules"],
  "all request sequences over users, posts, follows and timeline ranges, from concurrent clients",
  "The example tests cover single calls with one or two users.",
  ["examples/dsb_sn/workflow/socialnetwork"],
  [("compose, timelines, social graph, post storage, text, url, user services","examples/dsb_sn/workflow/socialnetwork")],
  ["service interfaces versus a reference model"])

p("C21", "Value copying helpers are total, type-exact and deep on slices",
  "Copying a result into a destination pointer succeeds exactly when the value (or, for slices, each element) is assignable to the destination's type, then leaves the destination equal to the source and independent of its slice storage; otherwise it returns an error and leaves the destination unchanged. Zeroing and dereferencing helpers behave likewise. Nil sources or destinations, non-pointers and mismatched types yield a result or an error, never a panic, and encoded trace contexts decode back to the same span context or to an error.",
  ["inputs"],
  "all Go values and destination types",
  "Only the types used in the plugin tests are covered.",
  ["runtime/core/backend/reflect.go","runtime/core/backend/trace.go"],
  [("CopyResult, SetZero, GetPointerValue, GetSpanContext","runtime/core/backend")],
  ["return values and destinations"])

p("C22", "The test service registry resolves one shared instance per service",
  "A service registry used by application tests builds the default service (the one chosen with SetDefault, else the first one registered) at most once, hands the same instance to every caller in any order and from any number of goroutines, reports a failing or missing constructor as an error every time it is asked and for a name registered several times uses the last registration made before first use. Generated test fixtures register every service of the compiled application under its type.",
  ["schedules","configurations","fault_sequences"],
  "all registration orders, failing constructors and concurrent Gets",
  "The unit tests use one goroutine and constructors that succeed.",
  ["runtime/core/registry/registry.go","plugins/gotests"],
  [("ServiceRegistry.Get","runtime/core/registry/registry.go")],
  ["constructor invocations and Get results"])

p("C23", "Thrift- and xtrace-based deployments preserve results",
  "For every workflow service deployed with the Thrift modifier or traced with X-Trace, the generated program returns the same results and errors as direct invocation.",
  ["programs","inputs"],
  "all workflow interfaces and argument values",
  "No existing test generates or runs this code.",
  ["plugins/thrift","plugins/xtrace","runtime/plugins/xtrace"],
  [("thrift templates","plugins/thrift/thriftcodegen")],
  ["calls through generated programs"])

p("C24", "In-memory relational databases are isolated and answer like tables of rows",
  "Every in-memory relational database instance has its own tables. Creating tables and inserting, selecting (with conditions, order, limit, joins and aggregates, through Query, Get, Select and Prepare), updating and deleting rows with bound parameters behave as on plain tables of rows, with the numbers of affected rows; a missing row or table, an invalid statement or a cancelled context is an error and changes nothing. Statements of concurrent callers are each atomic (no update is lost, no partial one seen) and never fail because of each other.",
  ["histories","schedules","inputs"],
  "all statement sequences over several instances and concurrent callers",
  "The only unit test runs a single scenario on one instance, and cannot pass in the pinned tree.",
  ["runtime/plugins/sqlitereldb","runtime/core/backend/reldb.go"],
  [("SqliteRelDB","runtime/plugins/sqlitereldb")],
  ["backend.RelationalDB calls at the client boundary versus model tables"])

p("C25", "TrainTicket keeps its records, prices and deliveries",
  "For every history of requests, the TrainTicket services (stations, routes, trains, prices, assurances, configurations, consign prices, contacts, users, payments, train and station food) answer as tables of the records stored so far: a record stored is found, listed and answered unaltered until it is updated or deleted, only the records with the given key change, a lookup of an unknown record is an error, duplicates that a service rejects (station ID, train name, configuration name, contact document, food store ID) are rejected, prices and routes with an existing ID and train food of an existing trip are replaced, and a lookup of several keys answers exactly one record (or blank) for each. A request that is refused (unknown assurance type, malformed route, payment of an unknown order) changes nothing; there is at most one consign price configuration, and prices by weight follow from it; new routes, assurances and money records get IDs of their own; cleaning up removes everything. When a database operation fails, the request reports an error or still has its full effect, and no record is duplicated. Concurrent requests for different records do not affect each other. Every delivery in the queue is stored exactly once, by however many workers, or left in the queue when they are cancelled; workers survive failures of queue and database, and stop when cancelled.",
  ["histories","inputs","schedules","fault_sequences"],
  "all request histories, record contents, failing database operations and concurrent clients of each service",
  "The tests of the sample application run one scenario per service, sequentially and with a database that never fails.",
  ["examples/train_ticket/workflow"],
  [("services","examples/train_ticket/workflow/*"),("delivery worker","examples/train_ticket/workflow/delivery")],
  ["every service answer and the records in its database versus a reference table"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
# properties without a check are left out, except those this technique cannot decide (see DESIGN.md)
ROOT = os.path.dirname(out)
P = [x for x in P if x["id"] == "C23" or os.path.exists(os.path.join(ROOT, "checks", x["id"] + ".py"))]
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
