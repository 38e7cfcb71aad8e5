// C15: the generated run.sh and build.sh start and build every process, once, in order, with its configuration.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/harness/hx"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	goprocgen "github.com/blueprint-uservices/blueprint/plugins/goproc/linuxgen"
	"github.com/blueprint-uservices/blueprint/plugins/linux"
	"github.com/blueprint-uservices/blueprint/plugins/linuxcontainer"
)

type node string

func (n node) Name() string   { return string(n) }
func (n node) String() string { return string(n) }

// A process of the generated workspace
type proc struct {
	Name  string
	Kind  string   // func: records when it is started; gorun, binary: the goproc plugin's
	Deps  []string // processes
	Args  []string // configuration
	Fails string   // how the run func fails, if it does: status, unset, nodir
	Build string   // ok, fails or "" if it has no build script
}

type scenario struct {
	Procs []*proc
	Env   map[string]string // the configuration that is set
	Unset []string          // the configuration that isn't
	Stale []string          // processes whose variable is set before run.sh is started
	Again bool              // run.sh is run a second time
	Help  bool
}

// What was seen of a started process
type started struct {
	Name, Dir string
	Values    []string
}

var procNames = []string{"a", "b", "user_proc", "proc-1", "my.proc", "Frontend", "zz.top-2", "x_y", "cart_service.proc", "p9", "z", "order"}
var argNames = []string{"a.http.bind_addr", "b.grpc.dial_addr", "user.addr", "timeout", "x-z", "UPPER.case", "db.dial_addr", "n1", "coll.zipkin.addr"}
var values = []string{"localhost:1234", "0.0.0.0:80", "plain", "two words", " lead", "trail ", "*", "$HOME", "a'b", `a"b`, `back\slash`, "", "-x", "--help", "a=b", "&& exit", "`id`", "$(id)", "x;y", "ü", "a\nb", "{}", "[a-z]", "~", "#c", "%s", "!x", "tab\there"}

func gen(r *rand.Rand) *scenario {
	s := &scenario{Env: map[string]string{}}
	names := append([]string{}, procNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	failing := r.Intn(3) == 0
	args := map[string]bool{}
	n := 1 + r.Intn(7)
	hostile := r.Intn(2) == 0
	for i := 0; i < n; i++ {
		p := &proc{Name: names[i], Kind: []string{"func", "func", "gorun", "binary"}[r.Intn(4)]}
		for _, q := range s.Procs {
			if r.Intn(3) == 0 {
				p.Deps = append(p.Deps, q.Name)
			}
		}
		for _, a := range argNames {
			if r.Intn(4) == 0 {
				p.Args = append(p.Args, a)
				args[a] = true
			}
		}
		if failing && r.Intn(4) == 0 {
			p.Fails = []string{"status", "unset", "nodir"}[r.Intn(3)]
			if p.Kind != "func" {
				p.Fails = "nodir"
			} else if p.Fails == "nodir" {
				p.Fails = "status"
			}
		}
		p.Build = []string{"", "ok", "ok"}[r.Intn(3)]
		s.Procs = append(s.Procs, p)
		if r.Intn(8) == 0 {
			s.Stale = append(s.Stale, p.Name)
		}
	}
	if r.Intn(4) == 0 {
		if p := s.Procs[r.Intn(n)]; p.Build != "" {
			p.Build = "fails"
		}
	}
	// the order in which the processes are declared is not the order of their dependencies
	r.Shuffle(n, func(i, j int) { s.Procs[i], s.Procs[j] = s.Procs[j], s.Procs[i] })
	var sorted []string
	for a := range args {
		sorted = append(sorted, a)
	}
	sort.Strings(sorted)
	missing := r.Intn(4) == 0
	for _, a := range sorted {
		if missing && r.Intn(3) == 0 {
			s.Unset = append(s.Unset, a)
		} else if hostile {
			s.Env[a] = values[r.Intn(len(values))]
		} else {
			s.Env[a] = values[r.Intn(3)]
		}
	}
	s.Again = r.Intn(5) == 0
	s.Help = r.Intn(30) == 0
	return s
}

const fakeProc = `#!/bin/bash
f=$(mktemp "$C15_LOG/proc.XXXXXXXX.tmp")
printf '%s\0' "$C15_NAME" "$PWD" "$@" > "$f"
mv "$f" "${f%.tmp}.start"
sleep 0.05
mv "${f%.tmp}.start" "${f%.tmp}.end"
`

// Called instead of the go command
const fakeGo = `#!/bin/bash
if [ "$1" != run ] || [ "$2" != . ]; then exit 97; fi
shift 2
exec ./proc.sh "$@"
`

func runfunc(p *proc) (string, error) {
	name := ir.CleanName(p.Name)
	var edges []ir.IRNode
	for _, a := range p.Args {
		edges = append(edges, node(a))
	}
	switch p.Kind {
	case "gorun":
		return goprocgen.GenerateRunFunc(name, edges...)
	case "binary":
		return goprocgen.GenerateBinaryRunFunc(name, edges...)
	}
	f := "function whatever() {\n\tprintf '%s\\0' '" + p.Name + "' \"$PWD\""
	for _, d := range append(append([]string{}, p.Args...), p.Deps...) {
		f += " \"$" + linux.EnvVar(d) + "\""
	}
	f += " > \"$C15_LOG/func.$((++C15_COUNT)).start\"\n"
	if p.Fails == "status" {
		return f + "\treturn 3\n}", nil
	}
	if p.Fails == "unset" {
		return f + "\treturn 0\n}", nil
	}
	return f + "\tcd " + name + "\n\t./proc.sh &\n\t" + linux.EnvVar(p.Name) + "=\"pid of " + p.Name + "\"\n\treturn $?\n}", nil
}

func generate(dir string, s *scenario) error {
	ws := linuxcontainer.NewBasicWorkspace("the workspace", dir)
	for _, p := range s.Procs {
		pdir, err := ws.CreateProcessDir(p.Name)
		if err != nil {
			return err
		}
		name := ir.CleanName(p.Name)
		script := strings.Replace(fakeProc, "$C15_NAME", p.Name, 1)
		file := "proc.sh"
		switch p.Kind {
		case "binary":
			file = name
		case "gorun":
			os.Mkdir(filepath.Join(pdir, name), 0755)
			file = name + "/proc.sh"
		}
		if err := os.WriteFile(filepath.Join(pdir, file), []byte(script), 0755); err != nil {
			return err
		}
		if p.Build != "" {
			b := "#!/bin/bash\nprintf '%s\\0' '" + p.Name + "' \"$PWD\" > \"$(mktemp \"$C15_LOG/build.XXXXXXXX\")\"\n"
			if p.Build == "fails" {
				b += "exit 5\n"
			}
			path := filepath.Join(pdir, "build-it.sh")
			if err := os.WriteFile(path, []byte(b), 0644); err != nil {
				return err
			}
			if err := ws.AddBuildScript(path); err != nil {
				return err
			}
		}
		if p.Fails == "nodir" {
			if err := os.Rename(pdir, pdir+".moved"); err != nil {
				return err
			}
		}
	}
	for _, p := range s.Procs {
		f, err := runfunc(p)
		if err != nil {
			return err
		}
		var deps []ir.IRNode
		for _, d := range append(append([]string{}, p.Args...), p.Deps...) {
			deps = append(deps, node(d))
		}
		if err := ws.DeclareRunCommand(p.Name, f, deps...); err != nil {
			return err
		}
	}
	return ws.Finish()
}

func read(files []string) (all []started) {
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		parts := strings.Split(string(b), "\x00")
		if len(parts) < 3 {
			continue
		}
		all = append(all, started{parts[0], parts[1], parts[2 : len(parts)-1]})
	}
	return
}

// Runs a generated script; returns its output and exit status (-1: it didn't end)
func run(dir, script string, args []string, env []string) (string, int) {
	cmd := exec.Command("./"+script, args...)
	cmd.Dir = dir
	cmd.Env = env
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.WaitDelay = 2 * time.Second
	if err := cmd.Start(); err != nil {
		return err.Error(), -2
	}
	timer := time.AfterFunc(60*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	timedOut := !timer.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	if timedOut {
		return out.String(), -1
	}
	if err != nil && cmd.ProcessState.ExitCode() <= 0 {
		return out.String(), -3
	}
	return out.String(), cmd.ProcessState.ExitCode()
}

func eq(a, b []string) bool { return strings.Join(a, "\x00") == strings.Join(b, "\x00") && len(a) == len(b) }

func check(h *hx.H, tmp string, i int, s *scenario) {
	dir, _ := os.MkdirTemp(tmp, "case")
	defer os.RemoveAll(dir)
	bin, log, out := filepath.Join(dir, "bin"), filepath.Join(dir, "log"), filepath.Join(dir, "out put")
	for _, d := range []string{bin, log, out} {
		os.Mkdir(d, 0755)
	}
	os.WriteFile(filepath.Join(bin, "go"), []byte(fakeGo), 0755)
	if err := generate(out, s); err != nil {
		h.Violatef("generate", s, "case %d: generating the workspace failed: %v", i, err)
		return
	}
	env := []string{"PATH=" + bin + ":/usr/bin:/bin", "HOME=" + dir, "C15_LOG=" + log, "TMPDIR=" + dir}
	for k, v := range s.Env {
		env = append(env, linux.EnvVar(k)+"="+v)
	}
	sort.Strings(env)
	for _, p := range s.Stale {
		env = append(env, linux.EnvVar(p)+"=stale")
	}
	replay := func(output string) any {
		sh, _ := os.ReadFile(filepath.Join(out, "run.sh"))
		return map[string]any{"case": i, "scenario": s, "output": output, "run.sh": string(sh)}
	}

	// build.sh
	anyBuild, failing := 0, false
	output, status := run(out, "build.sh", nil, env)
	built, _ := filepath.Glob(log + "/build.*")
	count := map[string]int{}
	for _, b := range read(built) {
		count[b.Name]++
		for _, p := range s.Procs {
			if p.Name == b.Name && filepath.Base(b.Dir) != ir.CleanName(p.Name) {
				h.Violate("build-dir", fmt.Sprintf("the build script of %v is run in %v", p.Name, b.Dir), replay(output))
			}
		}
	}
	broken := false // something failed, so that build.sh can stop
	for _, p := range s.Procs {
		if p.Build != "" {
			anyBuild++
			failing = failing || p.Build == "fails" || p.Fails == "nodir"
			broken = failing
		}
	}
	for _, p := range s.Procs {
		want := 0
		if p.Build != "" && p.Fails != "nodir" {
			want = 1
		}
		if count[p.Name] != want && !(broken && count[p.Name] == 0) {
			h.Violate("build-count", fmt.Sprintf("build.sh runs the build script of %v %v times", p.Name, count[p.Name]), replay(output))
		}
	}
	if failing != (status != 0) {
		h.Violate("build-status", fmt.Sprintf("build.sh ends with status %v although failing=%v", status, failing), replay(output))
	}
	h.Observe("build scripts run", len(built))
	for _, f := range built {
		os.Remove(f)
	}

	times := 1
	if s.Again {
		times = 2
	}
	for k := 0; k < times; k++ {
		for _, pat := range []string{"proc.*", "func.*"} {
			fs, _ := filepath.Glob(filepath.Join(log, pat))
			for _, f := range fs {
				os.Remove(f)
			}
		}
		judge(h, s, out, log, env, replay)
	}
	if s.Help {
		before, _ := filepath.Glob(filepath.Join(log, "*"))
		output, _ := run(out, "run.sh", []string{"-h"}, env)
		after, _ := filepath.Glob(filepath.Join(log, "*"))
		if len(after) != len(before) {
			h.Violate("help", "run.sh -h starts processes", replay(output))
		}
		for _, a := range s.Unset {
			if !strings.Contains(output, linux.EnvVar(a)) {
				h.Violate("help", "run.sh -h does not mention "+linux.EnvVar(a), replay(output))
			}
		}
		h.Observe("usage printed", 1)
	}
	h.Case(fmt.Sprintf("%+v", describe(s)), len(s.Procs) > 1)
}

func describe(s *scenario) string {
	var b strings.Builder
	for _, p := range s.Procs {
		fmt.Fprintf(&b, "%+v;", *p)
	}
	fmt.Fprintf(&b, "%v %v %v", s.Env, s.Unset, s.Stale)
	return b.String()
}

func judge(h *hx.H, s *scenario, out, log string, env []string, replay func(string) any) {
	output, status := run(out, "run.sh", nil, env)
	notEnded, _ := filepath.Glob(log + "/proc.*.start")
	ended, _ := filepath.Glob(log + "/proc.*.end")
	var funcFiles []string
	for k := 1; ; k++ {
		f := fmt.Sprintf("%s/func.%d.start", log, k)
		if _, err := os.Stat(f); err != nil {
			break
		}
		funcFiles = append(funcFiles, f)
	}
	funcs, procs := read(funcFiles), read(append(append([]string{}, notEnded...), ended...))
	if status < 0 {
		h.Violate("hangs", fmt.Sprintf("run.sh does not end properly (%v)", status), replay(output))
		return
	}
	if len(notEnded) > 0 {
		h.Violate("wait", "run.sh ends before the processes that it started", replay(output))
	}
	if len(s.Unset) > 0 {
		h.Observe("runs with missing variables", 1)
		if len(funcs)+len(procs) > 0 {
			h.Violate("missing-starts", "run.sh starts processes although required variables are not set", replay(output))
		}
		if status == 0 {
			h.Violate("missing-status", "run.sh succeeds although required variables are not set", replay(output))
		}
		for _, a := range s.Unset {
			if !strings.Contains(output, linux.EnvVar(a)) {
				h.Violate("missing-report", "run.sh does not report that "+linux.EnvVar(a)+" is missing", replay(output))
			}
		}
		return
	}
	byName := map[string]*proc{}
	for _, p := range s.Procs {
		byName[p.Name] = p
	}
	memo := map[string]bool{}
	var ok func(n string) bool // whether the process gets started successfully
	ok = func(n string) bool {
		if v, has := memo[n]; has {
			return v
		}
		p := byName[n]
		v := p.Fails == ""
		for _, d := range p.Deps {
			v = ok(d) && v
		}
		memo[n] = v
		return v
	}
	anyFails := false
	attempts, runs := map[string]int{}, map[string]int{}
	position := map[string]int{}
	for k, f := range funcs {
		if _, has := position[f.Name]; !has {
			position[f.Name] = k
		}
		attempts[f.Name]++
	}
	for _, f := range procs {
		runs[f.Name]++
	}
	for _, p := range s.Procs {
		anyFails = anyFails || !ok(p.Name)
		depsOk := true
		for _, d := range p.Deps {
			depsOk = depsOk && ok(d)
		}
		if p.Kind == "func" {
			if !depsOk && attempts[p.Name] > 0 {
				h.Violate("dep-failed", fmt.Sprintf("%v is started although something that it needs could not be started", p.Name), replay(output))
			}
			if depsOk && (attempts[p.Name] == 0 || attempts[p.Name] > 1 && ok(p.Name)) {
				h.Violate("count", fmt.Sprintf("the run command of %v is executed %v times", p.Name, attempts[p.Name]), replay(output))
			}
			for _, d := range p.Deps {
				if byName[d].Kind == "func" && depsOk && attempts[p.Name] > 0 && position[d] > position[p.Name] {
					h.Violate("order", fmt.Sprintf("%v is started before %v, which it needs", p.Name, d), replay(output))
				}
			}
		}
		want := 0
		if ok(p.Name) {
			want = 1
		}
		if runs[p.Name] != want {
			h.Violate("count", fmt.Sprintf("%v processes of %v are started, should be %v", runs[p.Name], p.Name, want), replay(output))
		}
	}
	for _, f := range procs {
		p := byName[f.Name]
		var want []string
		if p.Kind != "func" {
			for _, a := range p.Args {
				want = append(want, "--"+a+"="+s.Env[a])
			}
		}
		if !eq(f.Values, want) {
			h.Violate("args", fmt.Sprintf("%v is started with %q, should be %q", f.Name, f.Values, want), replay(output))
		}
		h.Observe("configuration values compared", len(want))
	}
	for _, f := range funcs {
		p := byName[f.Name]
		if rel, err := filepath.EvalSymlinks(f.Dir); err != nil || rel != real(out) {
			h.Violate("cwd", fmt.Sprintf("the run command of %v is executed in %v", f.Name, f.Dir), replay(output))
		}
		for k, a := range p.Args {
			if k >= len(f.Values) || f.Values[k] != s.Env[a] {
				h.Violate("args", fmt.Sprintf("%v sees %q as the value of %v, should be %q", f.Name, f.Values, a, s.Env[a]), replay(output))
			}
		}
		for k, d := range p.Deps {
			v := f.Values[len(p.Args)+k]
			if byName[d].Kind == "func" && v != "pid of "+d {
				h.Violate("dep-value", fmt.Sprintf("%v sees %q as the value of the process %v", f.Name, v, d), replay(output))
			} else if v == "" || v == "stale" {
				h.Violate("dep-value", fmt.Sprintf("%v sees %q as the value of the process %v", f.Name, v, d), replay(output))
			}
		}
	}
	if anyFails != (status != 0) {
		h.Violate("status", fmt.Sprintf("run.sh ends with status %v although failures=%v", status, anyFails), replay(output))
	}
	h.Observe("processes started", len(procs))
	h.Observe("run commands executed", len(funcs))
	if anyFails {
		h.Observe("runs with failing processes", 1)
	}
}

func real(p string) string {
	r, _ := filepath.EvalSymlinks(p)
	return r
}

// Build scripts have to be in the workspace
func outside(h *hx.H, tmp string) {
	dir, _ := os.MkdirTemp(tmp, "outside")
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out")
	os.Mkdir(out, 0755)
	os.Mkdir(out+"2", 0755)
	for _, c := range []struct {
		path string
		ok   bool
	}{{out + "/p/build.sh", true}, {out + "/p/q/../build.sh", true}, {out + "/..p/build.sh", true}, {dir + "/build.sh", false}, {out + "/../build.sh", false}, {out + "2/build.sh", false}, {"/build.sh", false}} {
		ws := linuxcontainer.NewBasicWorkspace("ws", out)
		if err := ws.AddBuildScript(c.path); (err == nil) != c.ok {
			h.Violate("outside", fmt.Sprintf("AddBuildScript(%v) in workspace %v: %v", strings.TrimPrefix(c.path, dir), "/out", err), c.path)
		}
		h.Case("outside "+strings.TrimPrefix(c.path, dir), true)
	}
}

// Names of nodes become names of variables, commands and directories
func names(h *hx.H) {
	r := h.Rand(153)
	alphabet := []rune("ab9Z_-. :/$äß\t'\"#@")
	for i := 0; i < h.N(20000, 400000); i++ {
		var in []rune
		for k := r.Intn(8); k > 0; k-- {
			in = append(in, alphabet[r.Intn(len(alphabet))])
		}
		s := string(in)
		var c string
		if p := hx.Catch(func() { c = ir.CleanName(s) }); p != "" {
			h.Violate("cleanname", fmt.Sprintf("CleanName(%q) panics: %v", s, p), s)
			continue
		}
		okay := true
		for k, x := range c {
			okay = okay && (x == '_' || x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z' || k > 0 && x >= '0' && x <= '9')
		}
		letters := strings.ContainsAny(s, "abZ")
		if !okay || letters && c == "" {
			h.Violate("cleanname", fmt.Sprintf("CleanName(%q) = %q is no valid name", s, c), s)
		}
		if p := ir.CleanName(c); p != c {
			h.Violate("cleanname", fmt.Sprintf("CleanName(%q) = %q but CleanName(%q) = %q", s, c, c, p), s)
		}
		h.Case("name "+s, letters)
	}
}

func main() {
	h := hx.New()
	h.Rule = "a distinct workspace of processes (dependencies, configuration values, failures) whose build.sh and run.sh are executed by bash"
	var shard, shards int
	if _, err := fmt.Sscanf(h.Only, "%d/%d", &shard, &shards); err != nil {
		shards = 1
	}
	tmp, err := os.MkdirTemp("", "c15")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	r := h.Rand(150)
	for i := 0; i < h.N(2400, 40000); i++ {
		s := gen(r)
		if i%shards == shard {
			check(h, tmp, i, s)
			if i < 3 {
				h.Sample(describe(s))
			}
		}
	}
	if shard == 0 {
		outside(h, tmp)
		names(h)
	}
	os.RemoveAll(tmp)
	h.Done()
}
