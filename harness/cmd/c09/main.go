// C09: modifiers apply in wiring order; visibility and uniqueness rules are enforced.
//
// Random wiring specs (services, client/server modifiers of real plugins and of the
// harness, network deployments, placements) are compiled to IR; a path checker walks
// every call path of the IR and compares it with the one the declarations prescribe.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/pprof"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"verif/harness/hx"
	"verif/wf"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/logging"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/circuitbreaker"
	"github.com/blueprint-uservices/blueprint/plugins/clientpool"
	"github.com/blueprint-uservices/blueprint/plugins/faultinjector"
	"github.com/blueprint-uservices/blueprint/plugins/golang"
	"github.com/blueprint-uservices/blueprint/plugins/goproc"
	"github.com/blueprint-uservices/blueprint/plugins/govector"
	"github.com/blueprint-uservices/blueprint/plugins/grpc"
	"github.com/blueprint-uservices/blueprint/plugins/healthchecker"
	"github.com/blueprint-uservices/blueprint/plugins/http"
	"github.com/blueprint-uservices/blueprint/plugins/latency"
	"github.com/blueprint-uservices/blueprint/plugins/linuxcontainer"
	"github.com/blueprint-uservices/blueprint/plugins/retries"
	"github.com/blueprint-uservices/blueprint/plugins/timeouts"
	"github.com/blueprint-uservices/blueprint/plugins/workflow"
)

// ---------------------------------------------------------------- harness nodes

type markNode struct { // a client- or server-side modifier
	golang.Service
	name string
	next golang.Service
}

func (n *markNode) Name() string   { return n.name }
func (n *markNode) String() string { return n.name }

type custHandler struct { // a service that isn't from a workflow spec
	golang.Service
	name string
	args []ir.IRNode
}

func (n *custHandler) Name() string   { return n.name }
func (n *custHandler) String() string { return n.name }

type custServer struct {
	golang.Node
	name string
	svc  golang.Service
	bind *address.BindConfig
}

func (n *custServer) Name() string   { return n.name }
func (n *custServer) String() string { return n.name }

type custClient struct {
	golang.Service
	name string
	addr *address.Address[*custServer]
}

func (n *custClient) Name() string   { return n.name }
func (n *custClient) String() string { return n.name }

// ---------------------------------------------------------------- spec description

type mod struct {
	kind  string
	name  string // node name, once declared
	name2 string // server-side name of two-sided modifiers
}

type svc struct {
	name   string
	cust   bool
	uniq   string // app, ctr, none (custom services only)
	deps   []int
	mods   []*mod
	net    string // "", http, grpc, cust, custctr
	netcli string
	netsrv string
	proc   int // -1: not placed
}

type caseSpec struct {
	svcs    []*svc
	nproc   int
	procCtr []int    // container of a process, or -1
	ctrForm []string // how a process was put into its container: svc (via its service) or proc (by name)
	nctr    int
	clients [][]int // client processes: services requested
	req     []string
	bad     string
	log     []string
}

func (c *caseSpec) l(f string, a ...any) { c.log = append(c.log, fmt.Sprintf(f, a...)) }

var clientKinds = []string{"cm", "cm", "cm", "retry", "retryfd", "retryeb", "retryrl", "retrytb", "timeout", "cb", "pool", "cpool"}
var serverKinds = []string{"sm", "sm", "sm", "hc", "latency", "delay", "fail"}

func isClientKind(k string) bool {
	for _, x := range clientKinds {
		if x == k {
			return true
		}
	}
	return k == "govec"
}
func isServerKind(k string) bool {
	for _, x := range serverKinds {
		if x == k {
			return true
		}
	}
	return k == "govec"
}

func gen(r *rand.Rand) *caseSpec {
	c := &caseSpec{}
	n := 1 + r.Intn(5)
	c.nproc = r.Intn(4)
	c.nctr = 0
	if c.nproc > 0 && r.Intn(2) == 0 {
		c.nctr = 1 + r.Intn(2)
	}
	mode := r.Intn(3) // 0: mostly networked, 1: mixed, 2: mostly local
	for i := 0; i < n; i++ {
		s := &svc{name: fmt.Sprintf("s%d", i), proc: -1, uniq: "app"}
		if r.Intn(6) == 0 {
			s.name = fmt.Sprintf("s%d_service", i)
		}
		if r.Intn(5) < 2 {
			s.cust = true
			s.uniq = []string{"app", "app", "ctr", "none"}[r.Intn(4)]
		}
		for j := i + 1; j < n && len(s.deps) < 3; j++ {
			if r.Intn(3) > 0 {
				s.deps = append(s.deps, j)
			}
		}
		if s.cust && len(s.deps) > 0 && r.Intn(5) == 0 {
			s.deps = append(s.deps, s.deps[0])
		}
		seen := map[string]bool{}
		nm := r.Intn(6)
		for k := 0; k < nm; k++ {
			var kind string
			switch x := r.Intn(11); {
			case x < 5:
				kind = clientKinds[r.Intn(len(clientKinds))]
			case x < 10:
				kind = serverKinds[r.Intn(len(serverKinds))]
			default:
				kind = "govec"
			}
			if seen[kind] && kind != "cm" && kind != "sm" {
				continue
			}
			if kind == "cpool" {
				continue
			}
			seen[kind] = true
			m := &mod{kind: kind}
			if kind == "cm" || kind == "sm" {
				m.name = fmt.Sprintf("%s.%s%d", s.name, kind, k)
			}
			s.mods = append(s.mods, m)
		}
		switch p := r.Intn(10); {
		case mode == 0 && p < 9, mode == 1 && p < 6, mode == 2 && p < 2:
			s.net = []string{"http", "grpc", "cust", "http", "grpc", "custctr"}[r.Intn(6)]
		}
		if c.nproc > 0 && r.Intn(5) > 0 {
			s.proc = r.Intn(c.nproc)
		}
		c.svcs = append(c.svcs, s)
	}
	c.procCtr = make([]int, c.nproc)
	c.ctrForm = make([]string, c.nproc)
	for p := range c.procCtr {
		c.procCtr[p] = -1
		if c.nctr > 0 && r.Intn(4) > 0 {
			c.procCtr[p] = r.Intn(c.nctr)
			c.ctrForm[p] = []string{"svc", "proc"}[r.Intn(2)]
			has := false
			for _, s := range c.svcs {
				has = has || s.proc == p
			}
			if !has {
				c.ctrForm[p] = "proc"
			}
		}
	}
	if r.Intn(3) == 0 {
		var l []int
		for i := range c.svcs {
			if r.Intn(2) == 0 {
				l = append(l, i)
			}
		}
		if len(l) > 0 {
			c.clients = append(c.clients, l)
		}
	}
	// what is requested
	for p := 0; p < c.nproc; p++ {
		if c.procCtr[p] < 0 && r.Intn(5) > 0 {
			c.req = append(c.req, fmt.Sprintf("p%d", p))
		}
	}
	used := map[int]bool{}
	for p := 0; p < c.nproc; p++ {
		if k := c.procCtr[p]; k >= 0 && !used[k] {
			used[k] = true
			if r.Intn(6) > 0 {
				c.req = append(c.req, fmt.Sprintf("k%d", k))
			}
		}
	}
	for i := range c.clients {
		c.req = append(c.req, fmt.Sprintf("client%d", i))
	}
	for _, s := range c.svcs {
		if (s.proc < 0 && r.Intn(3) == 0) || r.Intn(15) == 0 {
			c.req = append(c.req, s.name)
		}
	}
	if len(c.req) == 0 {
		c.req = append(c.req, c.svcs[0].name)
	}
	r.Shuffle(len(c.req), func(i, j int) { c.req[i], c.req[j] = c.req[j], c.req[i] })
	if r.Intn(8) == 0 {
		c.bad = []string{"nonptr", "undefmod", "latecm", "latesm", "twonets", "undefarg"}[r.Intn(6)]
	}
	return c
}

// ---------------------------------------------------------------- declaring

func addClientMark(spec wiring.WiringSpec, s string, name string) {
	ptr := pointer.GetPointer(spec, s)
	next := ptr.AddSrcModifier(spec, name)
	spec.Define(name, &markNode{}, func(ns wiring.Namespace) (ir.IRNode, error) {
		m := &markNode{name: name}
		return m, ns.Get(next, &m.next)
	})
}

func addServerMark(spec wiring.WiringSpec, s string, name string) {
	ptr := pointer.GetPointer(spec, s)
	next := ptr.AddDstModifier(spec, name)
	spec.Define(name, &markNode{}, func(ns wiring.Namespace) (ir.IRNode, error) {
		m := &markNode{name: name}
		return m, ns.Get(next, &m.next)
	})
}

func deployCust(spec wiring.WiringSpec, s string, ctrOnly bool) {
	cli, srv, addr := s+".x_client", s+".x_server", s+".x.addr"
	if ctrOnly {
		address.Define[*custServer](spec, addr, srv, address.AddressOpts{Reachability: &goproc.Process{}})
	} else {
		address.Define[*custServer](spec, addr, srv)
	}
	ptr := pointer.GetPointer(spec, s)
	next := ptr.AddSrcModifier(spec, cli)
	spec.Define(cli, &custClient{}, func(ns wiring.Namespace) (ir.IRNode, error) {
		a, err := address.Dial[*custServer](ns, next)
		return &custClient{name: cli, addr: a}, err
	})
	snext := ptr.AddAddrModifier(spec, addr)
	spec.Define(srv, &custServer{}, func(ns wiring.Namespace) (ir.IRNode, error) {
		n := &custServer{name: srv}
		if err := ns.Get(snext, &n.svc); err != nil {
			return nil, err
		}
		return n, address.Bind[*custServer](ns, addr, n, &n.bind)
	})
}

func defs(spec wiring.WiringSpec) map[string]bool {
	m := map[string]bool{}
	for _, d := range spec.Defs() {
		m[d] = true
	}
	return m
}

func newDefs(spec wiring.WiringSpec, before map[string]bool) []string {
	var out []string
	for _, d := range spec.Defs() {
		if !before[d] {
			out = append(out, d)
		}
	}
	sort.Strings(out)
	return out
}

func declareMod(spec wiring.WiringSpec, s string, m *mod, r *rand.Rand) {
	before := defs(spec)
	switch m.kind {
	case "cm":
		addClientMark(spec, s, m.name)
		return
	case "sm":
		addServerMark(spec, s, m.name)
		return
	case "retry":
		retries.AddRetries(spec, s, int64(r.Intn(5)))
	case "retryfd":
		retries.AddRetriesWithFixedDelay(spec, s, 3, "1ms")
	case "retryeb":
		retries.AddRetriesWithExponentialBackoff(spec, s, "1ms", "8ms", r.Intn(2) == 0)
	case "retryrl":
		retries.AddRetriesRetryRateLimit(spec, s, 3, 10)
	case "retrytb":
		retries.AddRetriesTokenBucket(spec, s, 10, 1, 0.5)
	case "timeout":
		timeouts.Add(spec, s, "1s")
	case "cb":
		circuitbreaker.AddCircuitBreaker(spec, s, 10, 0.5, "1s")
	case "pool":
		clientpool.Create(spec, s, 1+r.Intn(4))
	case "hc":
		healthchecker.AddHealthCheckAPI(spec, s)
	case "latency":
		latency.AddFixed(spec, s, "1ms")
	case "delay":
		faultinjector.AddRandomDelay(spec, s, 5)
	case "fail":
		faultinjector.AddProbabilisticFailures(spec, s, 5)
	case "govec":
		govector.Instrument(spec, s)
	}
	nd := newDefs(spec, before)
	for _, d := range nd {
		if m.kind == "govec" && strings.Contains(d, "server") {
			m.name2 = d
		} else {
			m.name = d
		}
	}
}

func deployNet(spec wiring.WiringSpec, s *svc) {
	before := defs(spec)
	switch s.net {
	case "http":
		http.Deploy(spec, s.name)
	case "grpc":
		grpc.Deploy(spec, s.name)
	case "cust":
		deployCust(spec, s.name, false)
	case "custctr":
		deployCust(spec, s.name, true)
	default:
		return
	}
	for _, d := range newDefs(spec, before) {
		if strings.Contains(d, "addr") {
			continue
		}
		if strings.Contains(d, "client") {
			s.netcli = d
		} else if strings.Contains(d, "server") {
			s.netsrv = d
		}
	}
}

func declare(c *caseSpec, r *rand.Rand) wiring.WiringSpec {
	spec := wiring.NewWiringSpec("app")
	order := make([]int, len(c.svcs))
	for i := range order {
		order[i] = len(c.svcs) - 1 - i
	}
	for _, i := range order {
		s := c.svcs[i]
		var args []string
		for _, d := range s.deps {
			args = append(args, c.svcs[d].name)
		}
		if c.bad == "undefarg" && i == 0 && len(args) > 0 {
			args[len(args)-1] = "nonexistent"
		}
		c.l("service %s(%s) cust=%v uniq=%s", s.name, strings.Join(args, ","), s.cust, s.uniq)
		if s.cust {
			hn := s.name + ".handler"
			spec.Define(hn, &custHandler{}, func(ns wiring.Namespace) (ir.IRNode, error) {
				h := &custHandler{name: hn, args: make([]ir.IRNode, len(args))}
				for k, a := range args {
					if err := ns.Get(a, &h.args[k]); err != nil {
						return nil, err
					}
				}
				return h, nil
			})
			opt := pointer.PointerOpts{RequireUniqueness: &ir.ApplicationNode{}}
			switch s.uniq {
			case "ctr":
				opt.RequireUniqueness = &goproc.Process{}
			case "none":
				opt.RequireUniqueness = nil
			}
			pointer.CreatePointer[*custHandler](spec, s.name, hn, opt)
		} else {
			switch len(args) {
			case 0:
				workflow.Service[*wf.Svc0](spec, s.name)
			case 1:
				workflow.Service[*wf.Svc1](spec, s.name, args...)
			case 2:
				workflow.Service[*wf.Svc2](spec, s.name, args...)
			default:
				workflow.Service[*wf.Svc3](spec, s.name, args...)
			}
		}
	}
	for _, i := range r.Perm(len(c.svcs)) {
		s := c.svcs[i]
		for _, m := range s.mods {
			declareMod(spec, s.name, m, r)
			c.l("%s: %s %s %s", s.name, m.kind, m.name, m.name2)
		}
		if s.net != "" {
			deployNet(spec, s)
			c.l("%s: deploy %s", s.name, s.net)
		}
		if i == 0 && s.net != "" {
			switch c.bad {
			case "latecm":
				declareMod(spec, s.name, &mod{kind: "cm", name: s.name + ".late"}, r)
			case "latesm":
				declareMod(spec, s.name, &mod{kind: "sm", name: s.name + ".late"}, r)
			case "twonets":
				if s.net == "http" {
					grpc.Deploy(spec, s.name)
				} else {
					http.Deploy(spec, s.name)
				}
			}
		}
	}
	made := map[int]bool{}
	for _, i := range r.Perm(len(c.svcs)) {
		s := c.svcs[i]
		if s.proc < 0 {
			continue
		}
		pn := fmt.Sprintf("p%d", s.proc)
		if made[s.proc] {
			goproc.AddToProcess(spec, pn, s.name)
		} else {
			made[s.proc] = true
			goproc.CreateProcess(spec, pn, s.name)
		}
		c.l("%s in %s", s.name, pn)
		if k := c.procCtr[s.proc]; k >= 0 && c.ctrForm[s.proc] == "svc" {
			linuxcontainer.AddToContainer(spec, fmt.Sprintf("k%d", k), s.name)
			c.l("%s in k%d", s.name, k)
		}
	}
	for p := 0; p < c.nproc; p++ {
		pn := fmt.Sprintf("p%d", p)
		if !made[p] {
			goproc.CreateProcess(spec, pn)
		}
		if k := c.procCtr[p]; k >= 0 && c.ctrForm[p] == "proc" {
			linuxcontainer.AddToContainer(spec, fmt.Sprintf("k%d", k), pn)
			c.l("%s in k%d", pn, k)
		}
	}
	for k := 0; k < c.nctr; k++ {
		linuxcontainer.CreateContainer(spec, fmt.Sprintf("k%d", k))
	}
	for i, l := range c.clients {
		var names []string
		for _, x := range l {
			names = append(names, c.svcs[x].name)
		}
		goproc.CreateClientProcess(spec, fmt.Sprintf("client%d", i), names...)
		c.l("client%d of %v", i, names)
	}
	switch c.bad {
	case "nonptr":
		spec.Define("plain", &markNode{}, func(ns wiring.Namespace) (ir.IRNode, error) { return &markNode{name: "plain"}, nil })
		c.l("bad modifier on plain")
		badMod(spec, "plain", r)
	case "undefmod":
		c.l("bad modifier on undefined")
		badMod(spec, "undefined", r)
	}
	c.l("build %v", c.req)
	return spec
}

func badMod(spec wiring.WiringSpec, name string, r *rand.Rand) {
	switch r.Intn(15) {
	case 0:
		retries.AddRetries(spec, name, 1)
	case 1:
		retries.AddRetriesWithFixedDelay(spec, name, 1, "1s")
	case 2:
		retries.AddRetriesWithExponentialBackoff(spec, name, "1ms", "1s", false)
	case 3:
		retries.AddRetriesRetryRateLimit(spec, name, 1, 1)
	case 4:
		retries.AddRetriesTokenBucket(spec, name, 1, 1, 1)
	case 5:
		timeouts.Add(spec, name, "1s")
	case 6:
		circuitbreaker.AddCircuitBreaker(spec, name, 1, 1, "1s")
	case 7:
		clientpool.Create(spec, name, 1)
	case 8:
		healthchecker.AddHealthCheckAPI(spec, name)
	case 9:
		latency.AddFixed(spec, name, "1s")
	case 10:
		faultinjector.AddRandomDelay(spec, name, 1)
	case 11:
		faultinjector.AddProbabilisticFailures(spec, name, 1)
	case 12:
		govector.Instrument(spec, name)
	case 13:
		grpc.Deploy(spec, name)
	default:
		http.Deploy(spec, name)
	}
}

// ---------------------------------------------------------------- expected legality

// A place in which golang nodes are built: a process ("" = the application) and pools within.
type place struct {
	proc  string
	pools string
}

type model struct {
	c        *caseSpec
	handlers map[int]map[place]bool // where each service's handler is needed
	ptrs     map[string]bool
	procs    map[int]bool
	unknown  bool
	illegal  string
}

func (m *model) ctr(pl place) string {
	var p int
	if n, _ := fmt.Sscanf(pl.proc, "p%d", &p); n == 1 && m.c.procCtr[p] >= 0 {
		return fmt.Sprintf("k%d", m.c.procCtr[p])
	}
	return ""
}

func (m *model) handler(i int, pl place) {
	if m.handlers[i] == nil {
		m.handlers[i] = map[place]bool{}
	}
	if m.handlers[i][pl] {
		return
	}
	m.handlers[i][pl] = true
	for _, d := range m.c.svcs[i].deps {
		m.ptr(d, pl)
	}
}

func (m *model) ptr(i int, pl place) {
	k := fmt.Sprint(i, pl)
	if m.ptrs[k] {
		return
	}
	m.ptrs[k] = true
	s := m.c.svcs[i]
	if s.net == "" {
		m.handler(i, pl) // the pointer's destination
	}
	for _, md := range s.mods {
		if md.kind == "pool" {
			pl.pools += "/" + s.name
		}
	}
	if s.net == "" {
		m.handler(i, pl)
		return
	}
	if s.net == "custctr" {
		// the address is only reachable within a container
		if s.proc < 0 {
			m.unknown = true
			return
		}
		if m.ctr(pl) != m.ctr(place{proc: fmt.Sprintf("p%d", s.proc)}) {
			m.unknown = true // rejected, unless several instances are allowed
			return
		}
	}
	if s.proc >= 0 {
		m.proc(s.proc)
		return
	}
	m.unknown = true // the server goes wherever it's needed first
}

func (m *model) proc(p int) {
	if m.procs[p] {
		return
	}
	m.procs[p] = true
	for i, s := range m.c.svcs {
		if s.proc == p {
			m.handler(i, place{proc: fmt.Sprintf("p%d", p)})
		}
	}
}

// Returns legal, illegal or unknown.
func (c *caseSpec) legality() string {
	m := &model{c: c, handlers: map[int]map[place]bool{}, ptrs: map[string]bool{}, procs: map[int]bool{}}
	reqCtr := map[int]bool{}
	for _, q := range c.req {
		var k int
		if n, _ := fmt.Sscanf(q, "k%d", &k); n == 1 {
			reqCtr[k] = true
		}
	}
	for _, q := range c.req {
		var x int
		if n, _ := fmt.Sscanf(q, "p%d", &x); n == 1 {
			m.proc(x)
			continue
		}
		if n, _ := fmt.Sscanf(q, "k%d", &x); n == 1 {
			for p, k := range c.procCtr {
				if k == x {
					m.proc(p)
				}
			}
			continue
		}
		if n, _ := fmt.Sscanf(q, "client%d", &x); n == 1 {
			for _, i := range c.clients[x] {
				m.ptr(i, place{proc: q})
			}
			continue
		}
		for i, s := range c.svcs {
			if s.name == q {
				m.ptr(i, place{})
			}
		}
	}
	// Processes that are put in a container by name, but whose container isn't requested
	for p := range m.procs {
		if k := c.procCtr[p]; k >= 0 && c.ctrForm[p] == "proc" && !reqCtr[k] {
			m.unknown = true
		}
	}
	// A container may hold several processes, the others are built with it
	for p := range m.procs {
		for q, k := range c.procCtr {
			if k >= 0 && k == c.procCtr[p] && !m.procs[q] {
				m.unknown = true
			}
		}
	}
	for i, pls := range m.handlers {
		s := c.svcs[i]
		switch s.uniq {
		case "app":
			if len(pls) > 1 {
				m.illegal = s.name
			}
		case "ctr":
			per := map[string]int{}
			for pl := range pls {
				per[m.ctr(pl)]++
			}
			for _, n := range per {
				if n > 1 {
					m.illegal = s.name
				}
			}
		}
		if s.net != "" && len(pls) > 1 {
			m.unknown = true
		}
	}
	switch c.bad {
	case "nonptr", "undefmod":
		return "bad"
	case "undefarg":
		if len(c.svcs[0].deps) > 0 && len(m.handlers[0]) > 0 {
			return "bad"
		}
		if len(c.svcs[0].deps) > 0 && m.unknown {
			return "unknown"
		}
	case "latecm", "latesm", "twonets":
		if c.svcs[0].net != "" {
			for k := range m.ptrs {
				if strings.HasPrefix(k, "0 ") {
					return "bad"
				}
			}
			return "unknown"
		}
	}
	if m.illegal != "" {
		return "illegal"
	}
	if m.unknown {
		return "unknown"
	}
	return "legal"
}

// ---------------------------------------------------------------- IR walking

type occ struct {
	node  ir.IRNode
	chain []ir.IRNode // enclosing namespace nodes, outermost first
}

func children(n ir.IRNode) []ir.IRNode {
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return nil
	}
	for _, f := range []string{"Nodes", "Children"} {
		if fv := v.FieldByName(f); fv.IsValid() {
			if l, ok := fv.Interface().([]ir.IRNode); ok {
				return l
			}
		}
	}
	return nil
}

// The nodes that a node refers to, other than those it contains.
func refs(n ir.IRNode) []ir.IRNode {
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	var out []ir.IRNode
	var visit func(v reflect.Value)
	add := func(x any) {
		if nd, ok := x.(ir.IRNode); ok && nd != nil && !reflect.ValueOf(nd).IsNil() {
			for _, o := range out {
				if o == nd {
					return
				}
			}
			out = append(out, nd)
		}
	}
	visit = func(v reflect.Value) {
		for i := 0; i < v.NumField(); i++ {
			sf := v.Type().Field(i)
			switch sf.Name {
			case "Nodes", "Edges", "Children":
				continue
			}
			f := v.Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			if sf.Anonymous {
				if f.Kind() == reflect.Struct {
					visit(f)
				}
				continue
			}
			switch f.Kind() {
			case reflect.Interface, reflect.Pointer:
				if !f.IsNil() {
					add(f.Interface())
				}
			case reflect.Slice:
				for j := 0; j < f.Len(); j++ {
					if e := f.Index(j); (e.Kind() == reflect.Interface || e.Kind() == reflect.Pointer) && !e.IsNil() {
						add(e.Interface())
					}
				}
			}
		}
	}
	if v.Kind() == reflect.Struct {
		visit(v)
	}
	return out
}

type checker struct {
	h    *hx.H
	c    *caseSpec
	occs map[ir.IRNode][]occ
	list []occ
	bad  func(key, f string, a ...any)
}

func (k *checker) walk(n ir.IRNode, chain []ir.IRNode) {
	o := occ{n, chain}
	k.occs[n] = append(k.occs[n], o)
	k.list = append(k.list, o)
	k.h.Observe("ir_nodes", 1)
	sub := append(append([]ir.IRNode{}, chain...), n)
	for _, x := range children(n) {
		k.walk(x, sub)
	}
}

func (k *checker) procOf(n ir.IRNode) (proc, ctr string, ok bool) {
	os := k.occs[n]
	if len(os) == 0 {
		return "", "", false
	}
	for _, x := range os[0].chain {
		switch x.(type) {
		case *goproc.Process:
			proc = x.Name()
		case *linuxcontainer.Container:
			ctr = x.Name()
		}
	}
	return proc, ctr, true
}

func family(s *svc, name string) bool {
	return name == s.name || strings.HasPrefix(name, s.name+".")
}

// The expected chain of node names from a client of s to its handler.
func (s *svc) chain() (out []string) {
	if !s.cust {
		out = append(out, s.name+".client")
	}
	var srv []string
	for _, m := range s.mods {
		if isClientKind(m.kind) {
			out = append(out, m.name)
		}
		if m.kind == "govec" {
			srv = append(srv, m.name2)
		} else if isServerKind(m.kind) {
			srv = append(srv, m.name)
		}
	}
	if s.net != "" {
		out = append(out, s.netcli, "@", s.netsrv)
	}
	for i := len(srv) - 1; i >= 0; i-- {
		out = append(out, srv[i])
	}
	if s.cust {
		out = append(out, s.name+".handler")
	} else {
		out = append(out, s.name)
	}
	return out
}

// Follows a call path of service s starting with node n, called from process `from`.
func (k *checker) path(s *svc, n ir.IRNode, where string) ir.IRNode {
	var got []string
	want := s.chain()
	proc, _, ok := k.procOf(n)
	if !ok {
		k.bad("dangling", "%s: client %s of %s isn't part of the application", where, n.Name(), s.name)
		return nil
	}
	for {
		if len(got) > len(want)+3 {
			break
		}
		if a, isAddr := n.(address.Node); isAddr {
			got = append(got, "@")
			d := a.GetDestination()
			if d == nil {
				k.bad("no-server", "%s: the address %s of %s has no server", where, n.Name(), s.name)
				return nil
			}
			n = d
			if p, _, ok := k.procOf(n); !ok {
				k.bad("dangling", "%s: server %s of %s isn't part of the application", where, n.Name(), s.name)
				return nil
			} else {
				proc = p
			}
			k.h.Observe("address_hops", 1)
			continue
		}
		got = append(got, n.Name())
		if p, _, ok := k.procOf(n); !ok || p != proc {
			k.bad("crosses-process", "%s: path %v of %s leaves process %q for %q without a network hop", where, got, s.name, proc, p)
			return nil
		}
		if len(got) == len(want) {
			break
		}
		var next []ir.IRNode
		for _, x := range refs(n) {
			if _, isCfg := x.(ir.IRConfig); isCfg || !family(s, x.Name()) {
				continue
			}
			next = append(next, x)
		}
		if len(next) != 1 {
			break
		}
		n = next[0]
	}
	k.h.Observe("paths", 1)
	k.h.Observe("path_steps", len(got))
	if strings.Join(got, " ") != strings.Join(want, " ") {
		k.bad("order", "%s: calls of %s traverse\n   %s\nwant %s", where, s.name, strings.Join(got, " "), strings.Join(want, " "))
		return nil
	}
	return n
}

func (k *checker) check(app *ir.ApplicationNode) {
	k.occs = map[ir.IRNode][]occ{}
	for _, n := range app.Children {
		k.walk(n, nil)
	}
	for n, os := range k.occs {
		if len(os) > 1 {
			k.bad("twice", "%s is contained %d times in the application", n.Name(), len(os))
		}
	}
	byName := map[string]*svc{}
	for _, s := range k.c.svcs {
		hn := s.name
		if s.cust {
			hn += ".handler"
		}
		byName[hn] = s
	}
	handlers := map[*svc][]ir.IRNode{}
	for _, o := range k.list {
		if s := byName[o.node.Name()]; s != nil {
			handlers[s] = append(handlers[s], o.node)
		}
	}
	for s, hs := range handlers {
		per := map[string]int{}
		for _, h := range hs {
			proc, ctr, _ := k.procOf(h)
			switch s.uniq {
			case "app":
				per[""]++
			case "ctr":
				per[ctr]++
			}
			if s.proc >= 0 && s.uniq == "app" && (proc != fmt.Sprintf("p%d", s.proc)) {
				// only services that aren't reached over the network may be pulled elsewhere
				if s.net != "" {
					k.bad("placement", "%s was placed in p%d but is in %q", s.name, s.proc, proc)
				}
			}
			if s.proc >= 0 && s.uniq == "app" && s.net != "custctr" && proc == fmt.Sprintf("p%d", s.proc) {
				if kk := k.c.procCtr[s.proc]; kk >= 0 && k.reqCtr(kk) && ctr != fmt.Sprintf("k%d", kk) {
					k.bad("placement", "%s was placed in container k%d but is in %q", proc, kk, ctr)
				}
			}
		}
		for _, n := range per {
			if n > 1 {
				k.bad("uniqueness", "%s must be unique (%s) but has %d instances", s.name, s.uniq, len(hs))
			}
		}
		// every call path of its dependencies
		for _, h := range hs {
			k.clients(s, h)
		}
	}
	// processes requested exist once, with the services placed in them
	for _, s := range k.c.svcs {
		if s.proc < 0 {
			continue
		}
		pn := fmt.Sprintf("p%d", s.proc)
		for _, o := range k.list {
			if p, isProc := o.node.(*goproc.Process); isProc && p.Name() == pn {
				found := false
				for _, h := range handlers[s] {
					hp, _, _ := k.procOf(h)
					found = found || hp == pn
				}
				if !found {
					k.bad("placement", "%s isn't in its process %s", s.name, pn)
				}
			}
		}
	}
	for i, l := range k.c.clients {
		pn := fmt.Sprintf("client%d", i)
		for _, o := range k.list {
			if p, isProc := o.node.(*goproc.Process); isProc && p.Name() == pn {
				for _, x := range l {
					s := k.c.svcs[x]
					first := s.chain()[0]
					n := 0
					for _, nd := range p.Nodes {
						if nd.Name() == first {
							n++
							k.path(s, nd, pn)
						}
					}
					if n != 1 {
						k.bad("client-process", "%s has %d clients of %s", pn, n, s.name)
					}
				}
			}
		}
	}
	k.configs()
}

func (k *checker) reqCtr(i int) bool {
	for _, q := range k.c.req {
		if q == fmt.Sprintf("k%d", i) {
			return true
		}
	}
	return false
}

func (k *checker) clients(s *svc, h ir.IRNode) {
	rs := refs(h)
	proc, _, _ := k.procOf(h)
	for _, d := range s.deps {
		dep := k.c.svcs[d]
		var cl []ir.IRNode
		for _, x := range rs {
			if family(dep, x.Name()) {
				cl = append(cl, x)
			}
		}
		if len(cl) != 1 {
			k.bad("client-count", "%s has %d clients of %s", h.Name(), len(cl), dep.name)
			continue
		}
		where := fmt.Sprintf("%s in %q", h.Name(), proc)
		if p, _, ok := k.procOf(cl[0]); ok && p != proc {
			k.bad("crosses-process", "%s uses a client of %s that is in %q", where, dep.name, p)
		}
		k.path(dep, cl[0], where)
	}
}

// Every network client and server has its configuration among the edges of the enclosing processes and containers.
func (k *checker) configs() {
	for _, o := range k.list {
		var conf ir.IRNode
		for _, x := range refs(o.node) {
			switch a := x.(type) {
			case *address.BindConfig:
				conf = a
			case address.Node:
				if f := reflect.ValueOf(a).Elem().FieldByName("Dial"); f.IsValid() && !f.IsNil() {
					conf = f.Interface().(ir.IRNode)
				}
			}
		}
		if conf == nil {
			continue
		}
		k.h.Observe("configs", 1)
		inside := false
		for i := len(o.chain) - 1; i >= 0; i-- {
			e := reflect.ValueOf(o.chain[i]).Elem().FieldByName("Edges")
			if !e.IsValid() {
				continue
			}
			found := false
			for _, x := range e.Interface().([]ir.IRNode) {
				found = found || x.Name() == conf.Name()
			}
			for _, x := range children(o.chain[i]) {
				inside = inside || x == conf
			}
			if inside {
				break
			}
			if !found {
				k.bad("config-edge", "%s needs %s, which isn't an argument of its enclosing %s", o.node.Name(), conf.Name(), o.chain[i].Name())
			}
		}
		if len(k.occs[conf]) != 1 {
			k.bad("config-edge", "%s is defined %d times", conf.Name(), len(k.occs[conf]))
		}
	}
}

func main() {
	logging.DisableCompilerLogging()
	h := hx.New()
	if f := os.Getenv("CPUPROF"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
	}
	h.Rule = "a case is one random wiring spec; it counts when a modifier, a network deployment or a rejection is involved; distinct by its declarations"
	n := h.N(3600, 60000)
	sh, of := 0, 1
	fmt.Sscanf(h.Only, "%d/%d", &sh, &of)
	for i := sh; i < n; i += of {
		r := h.Rand(int64(i)*7919 + 9)
		c := gen(r)
		one(h, c, r, i)
	}
	pprof.StopCPUProfile()
	h.Done()
}

func one(h *hx.H, c *caseSpec, r *rand.Rand, i int) {
	var app *ir.ApplicationNode
	var err error
	p := hx.Catch(func() {
		spec := declare(c, r)
		app, err = spec.BuildIR(c.req...)
	})
	desc := strings.Join(c.log, "\n")
	bad := func(key, f string, a ...any) {
		h.Violate(key, fmt.Sprintf(f, a...)+"\n--- spec (case "+fmt.Sprint(i)+")\n"+desc, map[string]any{"case": i, "spec": c.log})
	}
	if p != "" {
		bad("panic", "compiling panicked: %s", p)
		return
	}
	leg := c.legality()
	nontrivial := false
	for _, s := range c.svcs {
		nontrivial = nontrivial || len(s.mods) > 0 || s.net != ""
	}
	h.Case(desc, nontrivial || leg != "legal")
	h.Observe("legality_"+leg, 1)
	if err != nil {
		h.Observe("rejected", 1)
		if leg == "legal" {
			bad("rejected-legal", "a legal spec was rejected: %v", err)
		}
		return
	}
	if leg == "illegal" || leg == "bad" {
		bad("accepted-"+leg, "a spec that must be rejected (%s %s) was accepted\n%s", leg, c.bad, app)
	}
	if c.bad != "" {
		return
	}
	h.Observe("accepted", 1)
	k := &checker{h: h, c: c, bad: bad}
	k.check(app)
	if i < 3 {
		h.Sample(map[string]any{"spec": c.log, "ir": app.String()})
	}
}
