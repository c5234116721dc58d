package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// HarnessSpec is one ZkvH_ function with its annotations:
//
//	//zkv:prop G01,C04
//	//zkv:opt steps=100000 alloc=64 conc=300 w=2 samples=8 thorough
type HarnessSpec struct {
	Name, Rel, File string
	Props           []string
	Reach           []string
	Doc             string
	steps           int
	alloc, conc     int
	mem             int // MiB that no single allocation may need
	weight          int
	samples         int
	thoroughOnly    bool
	logs            bool // log files are written
	quickOnly       bool
}

func scanHarnesses(dir string) ([]*HarnessSpec, error) {
	var out []*HarnessSpec
	base := dir + "/pkg"
	err := filepath.Walk(base, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(base, filepath.Dir(path))
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "ZkvH_") {
				continue
			}
			h := &HarnessSpec{Name: fd.Name.Name, Rel: rel, File: path, steps: 3000000, alloc: 4096, conc: 300, weight: 1, samples: 6}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					switch {
					case strings.HasPrefix(t, "zkv:prop "):
						for _, p := range strings.Split(strings.TrimPrefix(t, "zkv:prop "), ",") {
							h.Props = append(h.Props, strings.TrimSpace(p))
						}
					case strings.HasPrefix(t, "zkv:opt "):
						for _, o := range strings.Fields(strings.TrimPrefix(t, "zkv:opt ")) {
							kv := strings.SplitN(o, "=", 2)
							n := 0
							if len(kv) == 2 {
								n, _ = strconv.Atoi(kv[1])
							}
							switch kv[0] {
							case "steps":
								h.steps = n
							case "alloc":
								h.alloc = n
							case "conc":
								h.conc = n
							case "w":
								h.weight = n
							case "samples":
								h.samples = n
							case "mem":
								h.mem = n
							case "logs":
								h.logs = true
							case "thorough":
								h.thoroughOnly = true
							case "quick":
								h.quickOnly = true
							}
						}
					default:
						h.Doc += strings.TrimSpace(t) + " "
					}
				}
			}
			seen := map[string]bool{}
			ast.Inspect(fd, func(n ast.Node) bool {
				if ce, ok := n.(*ast.CallExpr); ok {
					if se, ok := ce.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Reach" && len(ce.Args) == 1 {
						if l, ok := ce.Args[0].(*ast.BasicLit); ok {
							s, _ := strconv.Unquote(l.Value)
							if !seen[s] {
								seen[s] = true
								h.Reach = append(h.Reach, s)
							}
						}
					}
				}
				return true
			})
			h.Doc = strings.TrimSpace(h.Doc)
			out = append(out, h)
		}
		return nil
	})
	return out, err
}

type Check struct {
	root, repo, prop, tier string
	seed                   int64
	specs                  []*HarnessSpec
	dev                    bool
	prog                   *Program
	start                  time.Time
	tmp                    string
	ovFile                 string
	nativeMu               sync.Mutex
	natives                map[string]*nativeBin
	notes                  []string
	known                  map[string]string
	jobs                   []*Job
	dropped                []string
}

type nativeBin struct {
	done chan struct{}
	bin  string
	err  error
}

func (c *Check) note(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	fmt.Println("note:", s)
	c.notes = append(c.notes, s)
}

// loadKnown reads the committed findings: "finding: property=P id=K text".
func (c *Check) loadKnown() {
	c.known = map[string]string{}
	f, err := os.Open(c.root + "/known_findings.txt")
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		fs := strings.SplitN(sc.Text(), " ", 4)
		if len(fs) < 4 || fs[0] != "finding:" || fs[1] != "property="+c.prop && !c.dev || !strings.HasPrefix(fs[2], "id=") {
			continue
		}
		c.known[strings.TrimPrefix(fs[2], "id=")] = fs[3]
	}
}

func (c *Check) tierN() int {
	if c.tier == "thorough" {
		return 1
	}
	return 0
}

func (c *Check) main() int {
	c.start = time.Now()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if len(c.specs) == 0 {
		fmt.Fprintln(os.Stderr, "zkverif: no harness for", c.prop)
		return 2
	}
	c.loadKnown()
	var err error
	c.tmp, err = os.MkdirTemp("", "zkverif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(c.tmp)

	var specs []*HarnessSpec
	for _, s := range c.specs {
		if s.thoroughOnly && c.tier != "thorough" || s.quickOnly && c.tier == "thorough" {
			continue
		}
		specs = append(specs, s)
	}
	c.specs = specs
	// files to compile: those of the selected harnesses and the helpers
	files := map[string]map[string]bool{}
	want := map[string]bool{}
	for _, s := range c.specs {
		want[s.File] = true
		if files[s.Rel] == nil {
			files[s.Rel] = map[string]bool{}
			fs, _ := filepath.Glob(c.root + "/harness/pkg/" + s.Rel + "/h_*.go")
			for _, f := range fs {
				files[s.Rel][f] = true
			}
		}
		files[s.Rel][s.File] = true
	}
	for try := 0; ; try++ {
		c.prog, err = loadProgram(c.repo, c.root+"/harness", files)
		if err == nil {
			break
		}
		le, ok := err.(*loadErr)
		if !ok || try > 20 {
			fmt.Fprintln(os.Stderr, "zkverif: load:", err)
			return 2
		}
		// a harness does not fit the current sources: leave it out
		n := 0
		for _, bad := range le.files {
			for rel, fs := range files {
				for f := range fs {
					if c.repo+"/"+rel+"/zkvh_"+filepath.Base(f) == bad {
						delete(fs, f)
						n++
						c.note("harness file %s does not compile against the current sources and is left out: %s", filepath.Base(f), le.first)
						c.dropped = append(c.dropped, f)
					}
				}
				if len(fs) == 0 {
					delete(files, rel)
				}
			}
		}
		if n == 0 {
			fmt.Fprintln(os.Stderr, "zkverif: load:", err)
			return 2
		}
	}
	loadT := time.Since(c.start)
	drop := map[string]bool{}
	for _, d := range c.dropped {
		drop[d] = true
	}
	specs = nil
	for _, s := range c.specs {
		if !drop[s.File] {
			specs = append(specs, s)
		}
	}
	c.specs = specs
	if len(specs) == 0 {
		fmt.Fprintln(os.Stderr, "zkverif: no harness of this property compiles against the current sources")
		return 2
	}
	c.ovFile, err = c.prog.writeOverlay(c.tmp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c.natives = map[string]*nativeBin{}
	for rel := range files {
		c.buildNative(rel)
	}

	budget := time.Duration(envInt("ZKV_BUDGET", 0)) * time.Second
	if budget == 0 {
		if c.tier == "thorough" {
			budget = 700 * time.Second
		} else {
			budget = 100 * time.Second
		}
	}
	end := time.Now().Add(budget)
	nviol := 0
	var viol []*Violation
	validated, mismatches, skippedVal := 0, 0, 0
	knownSeen := map[string]bool{}
	var allSamples []*Sample
	totW := 0
	for _, s := range c.specs {
		totW += s.weight
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if w := envInt("ZKV_WORKERS", 0); w > 0 {
		workers = w
	}
	for _, s := range c.specs {
		fn := c.prog.pkgs[s.Rel].Func(s.Name)
		if fn == nil {
			c.note("harness %s not found", s.Name)
			continue
		}
		left := time.Until(end)
		share := left * time.Duration(s.weight) / time.Duration(totW)
		totW -= s.weight
		if totW > 0 {
			share *= 2 // later harnesses usually leave time unused
		}
		if share > left {
			share = left
		}
		if share < 2*time.Second {
			share = 2 * time.Second
		}
		j := &Job{name: s.Name, pkg: s.Rel, fn: fn, tier: c.tierN(), allocBound: s.alloc, concBound: s.conc, maxSteps: s.steps, memLimit: int64(s.mem) << 20, logs: s.logs,
			deadline: time.Now().Add(share), maxSamples: s.samples, seed: c.seed}
		if c.tier == "thorough" {
			j.maxSamples *= 4
		}
		t0 := time.Now()
		j.run(c.prog, workers)
		j.wall = time.Since(t0)
		j.spec = s
		c.jobs = append(c.jobs, j)
		st := "complete"
		if j.timedOut {
			st = fmt.Sprintf("TIME BOUND (%d branches left)", j.leftover)
		}
		fmt.Printf("%s.%s: %s paths=%d done=%d infeasible=%d steps=%d asserts=%d(%d solved) queries=%d unknown=%d solver=%.1fs wall=%.1fs\n", s.Rel, s.Name, st, j.paths, j.completed, j.infeasible, j.steps, j.asserts, j.assertQ, j.queries, j.unknown, j.solverWall.Seconds(), j.wall.Seconds())
		for _, k := range sortedKeys(j.cuts) {
			fmt.Printf("  bound: %s (%d paths)\n", k, j.cuts[k])
		}
		for _, k := range sortedKeys(j.unsup) {
			fmt.Printf("  unsupported: %s (%d paths)\n", k, j.unsup[k])
		}
		for _, r := range s.Reach {
			if j.reach[r] == 0 {
				c.note("%s: point %q was not reached", s.Name, r)
			}
		}
		if len(j.reach) == 0 && len(s.Reach) == 0 && j.completed == 0 && len(j.violations) == 0 {
			c.note("%s: no path completed", s.Name)
		}
		// violations
		vs := c.confirm(j)
		for _, v := range vs {
			if v.Known != "" {
				knownSeen[v.Known] = true
				continue
			}
			viol = append(viol, v)
			nviol++
		}
		// witness validation
		ok, bad, skip, extra := c.validate(j)
		validated += ok
		mismatches += bad
		skippedVal += skip
		for _, v := range extra {
			viol = append(viol, v)
			nviol++
		}
		allSamples = append(allSamples, j.samples...)
		if nviol > 0 && !c.dev && c.tier == "quick" {
			break
		}
	}
	for _, k := range sortedKeysS(c.known) {
		if knownSeen[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.prop, k, c.known[k])
		}
	}
	code := 0
	if len(viol) > 0 {
		code = 1
		dir := c.root + "/replay"
		os.MkdirAll(dir, 0o755)
		for i, v := range viol {
			f := fmt.Sprintf("%s/%s-%d.json", dir, c.prop, i)
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(f, b, 0o644)
			fmt.Printf("  %s: %s at %s\n", v.Harness, v.Msg, v.Where)
			if c.dev {
				fmt.Printf("  inputs: %v\n  observe: %v\n", v.Inputs, v.Observe)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, f)
		}
	}
	if !c.dev {
		if err := c.evidence(loadT, viol, validated, mismatches, skippedVal, allSamples, knownSeen); err != nil {
			fmt.Fprintln(os.Stderr, "zkverif: evidence:", err)
			return 2
		}
	}
	fmt.Printf("%s: %d harnesses, load %.1fs, total %.1fs, validated %d witnesses (%d mismatches, %d not comparable), violations %d\n", c.prop, len(c.jobs), loadT.Seconds(), time.Since(c.start).Seconds(), validated, mismatches, skippedVal, len(viol))
	return code
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortedKeysS(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (c *Check) buildNative(rel string) {
	nb := &nativeBin{done: make(chan struct{})}
	c.natives[rel] = nb
	go func() {
		defer close(nb.done)
		nb.bin = c.tmp + "/" + strings.Replace(rel, "/", "_", -1) + ".test"
		cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", c.ovFile, "-o", nb.bin, "./"+rel)
		cmd.Dir = c.repo
		cmd.Env = goEnv()
		o, err := cmd.CombinedOutput()
		if err != nil {
			nb.err = fmt.Errorf("%v: %s", err, o)
		}
	}()
}

type nativeRun struct {
	code    int
	obs     []string
	fail    string
	hang    bool
	assume  bool
	panicd  string
	timeout bool
	out     string
}

var caseN int

// memOf returns the memory limit of a harness in MiB, or 0.
func (c *Check) memOf(rel, harness string) int {
	for _, j := range c.jobs {
		if j.spec != nil && j.spec.Rel == rel && j.spec.Name == harness {
			return j.spec.mem
		}
	}
	return 0
}

func (c *Check) runNative(rel, harness string, inputs map[string]uint64, perturb uint64) (*nativeRun, error) {
	nb := c.natives[rel]
	<-nb.done
	if nb.err != nil {
		return nil, nb.err
	}
	c.nativeMu.Lock()
	caseN++
	n := caseN
	c.nativeMu.Unlock()
	f := fmt.Sprintf("%s/case%d.json", c.tmp, n)
	b, _ := json.Marshal(map[string]interface{}{"harness": harness, "inputs": inputs, "tier": c.tierN(), "perturb": perturb, "mem": c.memOf(rel, harness)})
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, nb.bin, "-test.run", "^TestZkvReplay$")
	cmd.Dir = c.tmp
	cmd.Env = append(os.Environ(), "ZKV_CASE="+f)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	r := &nativeRun{out: out.String()}
	if err != nil {
		r.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
		}
	}
	if ctx.Err() != nil {
		r.timeout = true
	}
	for _, l := range strings.Split(r.out, "\n") {
		switch {
		case strings.HasPrefix(l, "ZKV-OBS "):
			r.obs = append(r.obs, strings.TrimPrefix(l, "ZKV-OBS "))
		case strings.HasPrefix(l, "ZKV-FAIL "):
			r.fail = strings.TrimPrefix(l, "ZKV-FAIL ")
		case l == "ZKV-HANG":
			r.hang = true
		case l == "ZKV-ASSUME":
			r.assume = true
		case (strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ")) && r.panicd == "":
			r.panicd = l
		}
	}
	os.Remove(f)
	return r, nil
}

func schedDep(in map[string]uint64) bool {
	for k := range in {
		if strings.HasPrefix(k, "@") {
			return true
		}
	}
	return false
}

// confirms reports whether a native run shows the violation.
func confirms(v *Violation, r *nativeRun) bool {
	switch v.Kind {
	case "assert":
		return r.fail != "" && r.fail == strings.TrimPrefix(v.Msg, "assertion failed: ")
	case "deadlock":
		return r.hang || r.timeout || strings.Contains(r.panicd, "all goroutines are asleep")
	case "steps":
		return r.hang || r.timeout
	}
	return r.panicd != ""
}

func (c *Check) confirm(j *Job) []*Violation {
	var out []*Violation
	done := map[string]bool{}
	vs := j.violations
	// one confirmed representative per message
	type res struct {
		v  *Violation
		ok bool
		ob string
	}
	results := make([]res, len(vs))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i, v := range vs {
		wg.Add(1)
		go func(i int, v *Violation) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			results[i].v = v
			sd := schedDep(v.Inputs)
			tries := 1
			if sd {
				tries = 12
			}
			var last *nativeRun
			for t := 0; t < tries; t++ {
				p := uint64(0)
				if t > 0 {
					p = uint64(t)*0x9E3779B97F4A7C15 + uint64(c.seed)
				}
				r, err := c.runNative(j.pkg, j.name, v.Inputs, p)
				if err != nil {
					results[i].ob = err.Error()
					return
				}
				last = r
				if confirms(v, r) {
					results[i].ok = true
					v.Confirm = "replayed on the compiled code"
					return
				}
			}
			if last != nil {
				results[i].ob = fmt.Sprintf("exit %d %s %s", last.code, last.fail, last.panicd)
				if c.dev {
					results[i].ob += "\n" + last.out
				}
			}
			if sd && v.Kind != "steps" {
				// the schedule cannot be forced on the compiled code;
				// the executor replays it deterministically
				v.Confirm = "schedule-dependent: replayed by the executor only"
				results[i].ok = true
			}
		}(i, v)
	}
	wg.Wait()
	for _, r := range results {
		v := r.v
		if done[vkey(v.Kind, v.Msg)] {
			continue
		}
		if !r.ok {
			if v.Kind != "steps" {
				c.note("%s: candidate not reproduced natively, not reported: %s (%s) at %s", j.name, v.Msg, r.ob, v.Where)
				if c.dev {
					fmt.Println(v.Inputs, v.Observe)
				}
			}
			continue
		}
		done[vkey(v.Kind, v.Msg)] = true
		if v.Kind == "steps" {
			v.Msg = "does not terminate (" + v.Msg + ")"
		}
		m := strings.TrimPrefix(v.Msg, "assertion failed: ")
		if strings.HasPrefix(m, "[known ") {
			id := m[7:strings.IndexByte(m, ']')]
			if _, ok := c.known[id]; ok {
				v.Known = id
			}
		}
		out = append(out, v)
	}
	return out
}

func obsMatch(want, got string) bool {
	if !strings.Contains(want, "??") {
		return want == got
	}
	if len(want) != len(got) {
		return false
	}
	for i := range want {
		if want[i] != '?' && want[i] != got[i] {
			return false
		}
	}
	return true
}

func (c *Check) validate(j *Job) (ok, bad, skip int, extra []*Violation) {
	var mu sync.Mutex
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for _, s := range j.samples {
		if s == nil {
			continue
		}
		if schedDep(s.Inputs) {
			skip++
			continue
		}
		wg.Add(1)
		go func(s *Sample) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			r, err := c.runNative(j.pkg, j.name, s.Inputs, 0)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				skip++
				if len(c.notes) < 50 {
					c.note("native replay unavailable: %v", err)
				}
				return
			}
			if r.fail != "" && !strings.HasPrefix(r.fail, "[known ") || r.panicd != "" {
				if len(extra) >= 3 {
					return
				}
				extra = append(extra, &Violation{Harness: j.name, Kind: "native", Msg: "replay of an explored path on the compiled code failed: " + r.fail + r.panicd, Inputs: s.Inputs, Where: "native", Confirm: "native"})
				return
			}
			if strings.HasPrefix(r.fail, "[known ") {
				skip++
				return
			}
			match := r.code == 0 && len(r.obs) == len(s.Observe)
			for i := 0; match && i < len(r.obs); i++ {
				match = obsMatch(s.Observe[i], r.obs[i])
			}
			if match {
				ok++
				return
			}
			bad++
			c.note("%s: witness mismatch (exit %d assume=%v hang=%v)\n    executor %v\n    native   %v\n    inputs %v", j.name, r.code, r.assume, r.hang, s.Observe, r.obs, s.Inputs)
			if c.dev {
				o := r.out
				if len(o) > 3000 {
					o = o[:3000]
				}
				fmt.Println(o)
			}
		}(s)
	}
	wg.Wait()
	return
}

func (c *Check) evidence(loadT time.Duration, viol []*Violation, validated, mism, skipped int, samples []*Sample, known map[string]bool) error {
	var states, trans, queries, sats, unsats, asserts, assertQ, unknown int64
	var solver float64
	fns := map[string]bool{}
	var hs []interface{}
	exh := len(c.dropped) == 0 && len(c.jobs) == len(c.specs)
	for _, j := range c.jobs {
		states += j.paths + j.forks
		trans += j.steps
		queries += j.queries
		sats += j.sats
		unsats += j.unsats
		unknown += j.unknown
		asserts += j.asserts
		assertQ += j.assertQ
		solver += j.solverWall.Seconds()
		for f := range j.fns {
			if !strings.HasPrefix(f, "~") && !strings.Contains(f, "/zkv/") && !strings.Contains(f, "/zkv.") && !strings.Contains(f, "ZkvH_") && !strings.Contains(f, "zkvh") {
				fns[strings.Replace(f, modPath+"/", "", -1)] = true
			}
		}
		var bounds []string
		for _, k := range sortedKeys(j.cuts) {
			bounds = append(bounds, fmt.Sprintf("%s: %d paths", k, j.cuts[k]))
		}
		for _, k := range sortedKeys(j.unsup) {
			bounds = append(bounds, fmt.Sprintf("not encoded: %s: %d paths", k, j.unsup[k]))
		}
		if j.timedOut {
			bounds = append(bounds, fmt.Sprintf("time budget: %d branches unexplored", j.leftover))
		}
		if len(bounds) > 0 {
			exh = false
		}
		ins := map[string]int{}
		for n, w := range j.inputsSeen {
			if i := strings.IndexByte(n, '#'); i >= 0 {
				n = n[:i]
			}
			ins[n] += int(w)
		}
		hs = append(hs, map[string]interface{}{
			"harness": j.pkg + "." + j.name, "about": j.spec.Doc, "paths": j.paths, "completed": j.completed, "infeasible": j.infeasible,
			"forks": j.forks, "instructions": j.steps, "assertions": j.asserts, "assertion_queries": j.assertQ, "solver_queries": j.queries,
			"solver_s": round(j.solverWall.Seconds()), "wall_s": round(j.wall.Seconds()), "bounds_hit": bounds, "exhausted": len(bounds) == 0,
			"symbolic_input_bits": ins, "reached": j.reach, "max_decisions": j.maxDepth,
		})
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var ss []interface{}
	for i, s := range samples {
		if s == nil || i >= 400 {
			continue
		}
		if len(ss) >= 8 {
			break
		}
		ss = append(ss, s)
	}
	if len(ss) == 0 {
		for _, j := range c.jobs {
			ss = append(ss, map[string]interface{}{"harness": j.name, "reached": j.reach, "paths": j.paths})
		}
	}
	var kn []string
	for k := range known {
		kn = append(kn, k)
	}
	sort.Strings(kn)
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": ss,
			"states_meaning":      "symbolic execution tree nodes (forks plus path ends); one path stands for every input satisfying its path condition",
			"transitions_meaning": "SSA instructions of the real code executed symbolically",
			"functions_encoded":   fl, "harnesses": hs, "solver": "z3 (QF_BV)", "solver_queries": queries, "sat": sats, "unsat": unsats, "unknown": unknown,
			"solver_time_s": round(solver), "assertions_checked": asserts, "assertions_needing_solver": assertQ,
			"witness_mismatches": mism, "witnesses_not_comparable": skipped, "exhaustive": exh, "load_s": round(loadT.Seconds()),
			"known_findings_seen": kn, "harness_files_left_out": c.dropped, "notes": c.notes,
		},
		"assumptions": assumptions,
		"wall_s":      round(time.Since(c.start).Seconds()),
		"violations":  len(viol),
	}
	os.MkdirAll(c.root+"/evidence", 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(c.root+"/evidence/"+c.prop+".json", append(b, '\n'), 0o644)
}

var assumptions = []string{
	"bounds are those written in the harness (see DESIGN.md); nothing is claimed outside them",
	"cryptographic primitives are ideal (collision-free, unforgeable, random values never guessed or repeated)",
	"file system, clock and randomness are the models in harness/zkv; logging is dropped; fmt output is exact only for the verbs modelled",
	"the executor's semantics of go/ssa is trusted and sampled against the compiled code on every run (traces_validated_against_impl)",
	"where concurrency is explored, switches happen at synchronisation, channel, file and clock operations, with the stated number of preemptions",
}

func round(x float64) float64 { return float64(int64(x*100+0.5)) / 100 }
