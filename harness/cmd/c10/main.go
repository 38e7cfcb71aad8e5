// C10: port assignment and the generators of docker-compose and kubernetes files.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/plugins/dockercompose/dockergen"
	"github.com/blueprint-uservices/blueprint/plugins/kubernetes/kubepod/deploygen"
	"verif/harness/hx"
)

func assign(h *hx.H) {
	for i := 0; i < h.N(4000, 60000); i++ {
		r := h.Rand(int64(i))
		n := r.Intn(9)
		pool := []uint16{1, 2, 2000, 2001, 2002, 2003, 6379, 8080, 65534, 65535}
		var binds []*address.BindConfig
		var desc string
		pre := map[uint16]int{}
		conflict := false
		type req struct{ port, pref uint16 }
		var reqs []req
		for j := 0; j < n; j++ {
			b := &address.BindConfig{}
			b.AddressName = fmt.Sprintf("a%d.addr", j)
			b.Key = fmt.Sprintf("a%d.bind_addr", j)
			switch r.Intn(4) {
			case 0:
				b.Port = pool[r.Intn(len(pool))]
				if pre[b.Port] > 0 {
					conflict = true
				}
				pre[b.Port]++
			case 1:
				b.PreferredPort = pool[r.Intn(len(pool))]
			}
			reqs = append(reqs, req{b.Port, b.PreferredPort})
			desc += fmt.Sprintf("(port %d, preferred %d) ", b.Port, b.PreferredPort)
			binds = append(binds, b)
		}
		key := "assign-ports"
		var p, a []*address.BindConfig
		var err error
		if x := hx.Catch(func() { p, a, err = address.AssignPorts(binds) }); x != "" {
			h.Violate(key+"-panic", "AssignPorts panics: "+x, desc)
			continue
		}
		h.Observe("port assignments", 1)
		h.Case(fmt.Sprint(n, len(pre), conflict), n > 1)
		if conflict {
			if err == nil {
				h.Violate(key+"-conflict", "two servers that ask for the same port are accepted", desc)
			}
			continue
		}
		if err != nil {
			h.Violate(key+"-error", "a possible port assignment is rejected: "+err.Error(), desc)
			continue
		}
		got := ""
		seen := map[uint16]bool{}
		bad := ""
		first := map[uint16]bool{}
		for j, b := range binds {
			got += fmt.Sprintf("%d ", b.Port)
			if b.Port == 0 {
				bad = "a server gets port 0"
			}
			if seen[b.Port] {
				bad = "two servers get the same port"
			}
			seen[b.Port] = true
			if reqs[j].port != 0 && b.Port != reqs[j].port {
				bad = "an explicitly requested port is not honoured"
			}
			// the first one that prefers a port that nobody requires gets it, unless it was given to an earlier server
			if pf := reqs[j].pref; reqs[j].port == 0 && pf != 0 && pre[pf] == 0 && b.Port != pf && !first[pf] {
				taken := false
				for k := 0; k < j; k++ {
					taken = taken || binds[k].Port == pf
				}
				if !taken {
					bad = "a preferred port that is free is not honoured"
				}
			}
			if reqs[j].pref != 0 && reqs[j].port == 0 {
				first[reqs[j].pref] = true
			}
		}
		for _, b := range p {
			if pre[b.Port] == 0 {
				bad = "preassigned contains a server without a port of its own"
			}
		}
		if len(p)+len(a) != len(binds) {
			bad = "servers are missing in the result"
		}
		if bad != "" {
			h.Violate(key, bad, desc+" -> "+got)
		}
		h.Sample(desc + "-> " + got)
	}
}

type expect struct {
	File      string
	Kind      string
	Instances map[string]*inst
}

type inst struct {
	Image, Context string
	Env            map[string]string
	Volumes        map[string]string
	Command        []string
	Ports          map[string]uint16
	Conf           map[string]string
}

func files(h *hx.H, dir string) {
	vals := []string{"x", "a b", "pass:word", "a: b", "#c", "'q'", `"dq"`, "a&b<c>", "%", "*", "- x", "{a}", "[b]", "true", "123", "", `back\slash`, "tab\there", "ünï", "a,b", "!x", "@y", "`z`"}
	var all []expect
	for i := 0; i < h.N(150, 2000); i++ {
		r := h.Rand(int64(1000000 + i))
		e := expect{Kind: []string{"compose", "kubernetes"}[i%2], Instances: map[string]*inst{}}
		d := filepath.Join(dir, fmt.Sprint(i))
		os.MkdirAll(d, 0755)
		names := []string{"web", "my-db", "cart.v2", "x_1", "Upper", "a b"}
		r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
		c := dockergen.NewDockerComposeFile("ws", d, "docker-compose.yml")
		k := deploygen.NewKubeDeploymentFile("pod", d, "pod-deployment.yaml", "pod-service.yaml")
		var err error
		do := func(f func() error) {
			if x := hx.Catch(func() {
				if e := f(); e != nil && err == nil {
					err = e
				}
			}); x != "" {
				err = fmt.Errorf("panic: %v", x)
			}
		}
		for _, n := range names[:1+r.Intn(4)] {
			n := n
			in := &inst{Env: map[string]string{}, Volumes: map[string]string{}, Ports: map[string]uint16{}, Conf: map[string]string{}}
			e.Instances[n] = in
			if e.Kind == "compose" {
				if r.Intn(2) == 0 {
					in.Image = "redis:7.2"
					do(func() error { return c.AddImageInstance(n, in.Image) })
				} else {
					in.Context = "img"
					do(func() error { return c.AddBuildInstance(n, in.Context) })
				}
			} else {
				in.Image = "registry/x:1"
				do(func() error { return k.AddImageInstance(n, in.Image) })
			}
			for j := 0; j < r.Intn(4); j++ {
				key, val := fmt.Sprintf("k%d.x-y", j), vals[r.Intn(len(vals))]
				in.Env[fmt.Sprintf("K%d_X_Y", j)] = val
				if e.Kind == "compose" {
					do(func() error { return c.AddEnvVar(n, key, val) })
				} else {
					do(func() error { return k.AddEnvVar(n, key, val) })
				}
			}
			for j := 0; j < r.Intn(3); j++ {
				port := uint16(1 + r.Intn(65535))
				pn := fmt.Sprintf("p%d.addr", len(in.Ports))
				in.Ports[pn] = port
				if e.Kind == "compose" {
					do(func() error { return c.ExposePort(n, port) })
					do(func() error { return c.MapPort(n, port, fmt.Sprintf("127.0.0.1:%d", 1000+len(in.Ports))) })
				} else {
					do(func() error { return k.ExposePort(n, n+"."+pn, port) })
				}
			}
			if e.Kind == "compose" {
				for j := 0; j < r.Intn(3); j++ {
					s := fmt.Sprintf("./vol%d", j)
					in.Volumes[s] = "/data"
					do(func() error { return c.AddVolume(n, s, "/data") })
				}
				for j := 0; j < r.Intn(3); j++ {
					in.Command = append(in.Command, vals[r.Intn(len(vals))])
				}
				if in.Command != nil {
					do(func() error { return c.SetCustomCommand(n, in.Command) })
				}
				if r.Intn(3) == 0 {
					in.Conf["gpus"] = "all"
					do(func() error { return c.AddCustomConf(n, "gpus", "all") })
				}
			}
		}
		if e.Kind == "compose" {
			e.File = filepath.Join(d, "docker-compose.yml")
			do(c.Generate)
			for n := range e.Instances {
				// a name that means the same instance
				if e2 := c.AddImageInstance(n, "y"); e2 == nil {
					h.Violate("file-redeclared", "a container instance can be declared twice", n)
				}
				break
			}
			if e2 := c.AddEnvVar("nosuch", "A", "b"); e2 == nil {
				h.Violate("file-unknown", "a variable of an unknown container is accepted", "")
			}
		} else {
			e.File = filepath.Join(d, "pod-deployment.yaml")
			do(k.Generate)
		}
		if err != nil {
			h.Violate("file-error", "a deployment file cannot be generated: "+err.Error(), fmt.Sprintf("%+v", e))
			continue
		}
		h.Observe("deployment files", 1)
		all = append(all, e)
	}
	data, _ := json.Marshal(all)
	os.WriteFile(filepath.Join(dir, "expect.json"), data, 0644)
}

func main() {
	h := hx.New()
	h.Rule = "port requests that conflict, wrap around or prefer the same ports; deployment files with arbitrary values"
	assign(h)
	files(h, os.Getenv("VERIF_FILES"))
	h.Done()
}
