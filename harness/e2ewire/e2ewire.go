// Package e2ewire turns JSON descriptions of applications into wiring specs and runs the
// compiler's command line on them.
package e2ewire

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/circuitbreaker"
	"github.com/blueprint-uservices/blueprint/plugins/clientpool"
	"github.com/blueprint-uservices/blueprint/plugins/cmdbuilder"
	"github.com/blueprint-uservices/blueprint/plugins/dockercompose"
	"github.com/blueprint-uservices/blueprint/plugins/faultinjector"
	"github.com/blueprint-uservices/blueprint/plugins/goproc"
	"github.com/blueprint-uservices/blueprint/plugins/gotests"
	"github.com/blueprint-uservices/blueprint/plugins/govector"
	"github.com/blueprint-uservices/blueprint/plugins/grpc"
	"github.com/blueprint-uservices/blueprint/plugins/healthchecker"
	"github.com/blueprint-uservices/blueprint/plugins/http"
	"github.com/blueprint-uservices/blueprint/plugins/jaeger"
	"github.com/blueprint-uservices/blueprint/plugins/kubernetes"
	"github.com/blueprint-uservices/blueprint/plugins/latency"
	"github.com/blueprint-uservices/blueprint/plugins/linuxcontainer"
	"github.com/blueprint-uservices/blueprint/plugins/memcached"
	"github.com/blueprint-uservices/blueprint/plugins/mongodb"
	"github.com/blueprint-uservices/blueprint/plugins/mysql"
	"github.com/blueprint-uservices/blueprint/plugins/opentelemetry"
	"github.com/blueprint-uservices/blueprint/plugins/rabbitmq"
	"github.com/blueprint-uservices/blueprint/plugins/redis"
	"github.com/blueprint-uservices/blueprint/plugins/retries"
	"github.com/blueprint-uservices/blueprint/plugins/simple"
	"github.com/blueprint-uservices/blueprint/plugins/timeouts"
	"github.com/blueprint-uservices/blueprint/plugins/workflow/workflowspec"
	"github.com/blueprint-uservices/blueprint/plugins/zipkin"
)

// Stmt is one wiring statement. On is the node it applies to or defines.
type Stmt struct {
	Op   string
	On   string
	Type string   // of a service
	Args []string // node names
	S    string
	N    int64
	F    float64
	B    bool
}

type App struct {
	Name  string
	Stmts []Stmt
	Nodes []string // nodes to instantiate
}

// Types are the workflow services of the application's workflow spec.
type Types struct {
	Service     map[string]func(spec wiring.WiringSpec, name string, args ...string) string
	LoadBalance map[string]func(spec wiring.WiringSpec, name string, svcs []string) string
	Replicate   map[string]func(spec wiring.WiringSpec, name string, n int, args ...string) ([]string, string)
	Generator   map[string]func(spec wiring.WiringSpec, name string, args ...string) string
}

func (t *Types) apply(spec wiring.WiringSpec, s Stmt) (extra []string, err error) {
	switch s.Op {
	case "service":
		f, ok := t.Service[s.Type]
		if !ok {
			return nil, fmt.Errorf("no service type %v", s.Type)
		}
		f(spec, s.On, s.Args...)
	case "loadbalancer":
		t.LoadBalance[s.Type](spec, s.On, s.Args)
	case "replicate":
		t.Replicate[s.Type](spec, s.On, int(s.N), s.Args...)
	case "generator":
		extra = append(extra, t.Generator[s.Type](spec, s.On, s.Args...))
	case "http":
		http.Deploy(spec, s.On)
	case "grpc":
		grpc.Deploy(spec, s.On)
	case "process":
		goproc.CreateProcess(spec, s.On, s.Args...)
	case "clientprocess":
		goproc.CreateClientProcess(spec, s.On, s.Args...)
	case "procdeploy":
		goproc.Deploy(spec, s.On)
	case "addtoprocess":
		goproc.AddToProcess(spec, s.On, s.Args[0])
	case "logger":
		goproc.SetLogger(spec, s.On, s.Args[0])
	case "container":
		linuxcontainer.CreateContainer(spec, s.On, s.Args...)
	case "ctrdeploy":
		linuxcontainer.Deploy(spec, s.On)
	case "compose":
		dockercompose.NewDeployment(spec, s.On, s.Args...)
	case "kubernetes":
		kubernetes.NewApplication(spec, s.On, s.S, s.Args...)
	case "pod":
		kubernetes.AddPodToApplication(spec, s.On, s.Args[0], s.S, s.Args[1:]...)
	case "retries":
		retries.AddRetries(spec, s.On, s.N)
	case "retriesdelay":
		retries.AddRetriesWithFixedDelay(spec, s.On, s.N, s.S)
	case "retriestimeouts":
		retries.AddRetriesWithTimeouts(spec, s.On, s.N, s.S)
	case "retriesbackoff":
		retries.AddRetriesWithExponentialBackoff(spec, s.On, s.S, s.Args[0], s.B)
	case "retriesrate":
		retries.AddRetriesRetryRateLimit(spec, s.On, s.N, int64(s.F))
	case "retriesbucket":
		retries.AddRetriesTokenBucket(spec, s.On, float64(s.N), s.F, 1)
	case "timeout":
		timeouts.Add(spec, s.On, s.S)
	case "breaker":
		circuitbreaker.AddCircuitBreaker(spec, s.On, s.N, s.F, s.S)
	case "pool":
		clientpool.Create(spec, s.On, int(s.N))
	case "latency":
		latency.AddFixed(spec, s.On, s.S)
	case "randomdelay":
		faultinjector.AddRandomDelay(spec, s.On, s.N)
	case "failures":
		faultinjector.AddProbabilisticFailures(spec, s.On, int(s.N))
	case "health":
		healthchecker.AddHealthCheckAPI(spec, s.On)
	case "otel":
		opentelemetry.Instrument(spec, s.On, s.Args[0])
	case "otelserver":
		opentelemetry.InstrumentWithoutClientSpans(spec, s.On, s.Args[0])
	case "otellogger":
		opentelemetry.Logger(spec, s.On)
	case "govector":
		govector.Instrument(spec, s.On)
	case "govectorlogger":
		govector.Logger(spec, s.On)
	case "zipkin":
		zipkin.Collector(spec, s.On)
	case "jaeger":
		jaeger.Collector(spec, s.On)
	case "gotests":
		// the module with the tests
		if s.S != "" {
			if err := workflowspec.AddModule(s.S); err != nil {
				panic("HARNESS: " + err.Error())
			}
		}
		extra = append(extra, gotests.Test(spec, s.Args...))
	case "simplecache":
		simple.Cache(spec, s.On)
	case "simpledb":
		simple.NoSQLDB(spec, s.On)
	case "simplereldb":
		simple.RelationalDB(spec, s.On)
	case "simplequeue":
		simple.Queue(spec, s.On)
	case "memcached":
		memcached.Container(spec, s.On)
	case "redis":
		redis.Container(spec, s.On)
	case "mongodb":
		mongodb.Container(spec, s.On)
	case "mysql":
		mysql.Container(spec, s.On)
	case "rabbitmq":
		rabbitmq.Container(spec, s.On, s.S)
	default:
		return nil, fmt.Errorf("unknown statement %v", s.Op)
	}
	return extra, nil
}

// Main runs the compiler's command line on the applications described by the file $VERIF_APPS.
func Main(t Types) {
	var apps []App
	data, err := os.ReadFile(os.Getenv("VERIF_APPS"))
	if err == nil {
		err = json.Unmarshal(data, &apps)
	}
	if err != nil {
		fmt.Println("HARNESS:", err)
		os.Exit(99)
	}
	var specs []cmdbuilder.SpecOption
	for _, a := range apps {
		a := a
		specs = append(specs, cmdbuilder.SpecOption{Name: a.Name, Description: a.Name, Build: func(spec wiring.WiringSpec) ([]string, error) {
			nodes := append([]string{}, a.Nodes...)
			for _, s := range a.Stmts {
				extra, err := t.apply(spec, s)
				if err != nil {
					fmt.Println("HARNESS:", err)
					os.Exit(99)
				}
				nodes = append(nodes, extra...)
			}
			return nodes, nil
		}})
	}
	cmdbuilder.MakeAndExecute("app", specs...)
}
