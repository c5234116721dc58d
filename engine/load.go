package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/companyzero/zkc"

// imports of the target (and of a few small dependencies) that are replaced
// by environment models, in the symbolic and in the native build alike.
var importRewrite = map[string]string{
	"os":                         modPath + "/zkv/zkos",
	"io/ioutil":                  modPath + "/zkv/zkioutil",
	"time":                       modPath + "/zkv/zktime",
	"crypto/rand":                modPath + "/zkv/zkrand",
	"path/filepath":              modPath + "/zkv/zkfilepath",
	"github.com/companyzero/ttk": modPath + "/zkv/zkttk",
	"github.com/nsf/termbox-go":  modPath + "/zkv/zktermbox",
	"net/http":                   modPath + "/zkv/zkhttp",
	"net/http/pprof":             modPath + "/zkv/zkpprof",
	"os/signal":                  modPath + "/zkv/zksignal",
	"encoding/json":              modPath + "/zkv/zkjson",
	"compress/zlib":              modPath + "/zkv/zkzlib",
	"crypto/tls":                 modPath + "/zkv/zktls",
}

var importName = map[string]string{"github.com/nsf/termbox-go": "termbox"}

type Program struct {
	prog      *ssa.Program
	repo      string
	rtErrType types.Type
	dummy     *ssa.Function
	target    map[*types.Package]bool
	overlay   map[string][]byte // absolute path -> content
	removed   []string
	harnesses map[string][]string // package rel path -> harness names
	pkgs      map[string]*ssa.Package
	harnDir   string
}

func (p *Program) isTarget(pkg *ssa.Package) bool { return pkg != nil && p.target[pkg.Pkg] }

func (p *Program) build(pkg *ssa.Package) {}

func (p *Program) lookupFunc(name string) *ssa.Function {
	// "path.Func" or "(*path.T).M"
	if strings.HasPrefix(name, "(") {
		return nil
	}
	i := strings.LastIndexByte(name, '.')
	pkg := p.prog.ImportedPackage(name[:i])
	if pkg == nil {
		return nil
	}
	return pkg.Func(name[i+1:])
}

func goEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "CGO_ENABLED=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=readonly", "GOPROXY=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOWORK=off")
}

// rewriteImports redirects the environment imports of one source file.
func rewriteImports(src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ImportsOnly)
	if err != nil {
		return src, false
	}
	type edit struct {
		off, end int
		s        string
	}
	var edits []edit
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		r, ok := importRewrite[p]
		if !ok {
			continue
		}
		name := ""
		if im.Name == nil {
			name = filepath.Base(p) + " "
			if n := importName[p]; n != "" {
				name = n + " "
			}
		}
		o := fset.Position(im.Path.Pos()).Offset
		edits = append(edits, edit{o, o + len(im.Path.Value), name + strconv.Quote(r)})
	}
	if len(edits) == 0 {
		return src, false
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].off > edits[j].off })
	out := append([]byte{}, src...)
	for _, e := range edits {
		out = append(out[:e.off:e.off], append([]byte(e.s), out[e.end:]...)...)
	}
	return out, true
}

// depRewrite lists dependency packages whose environment imports are also
// replaced.
var depRewrite = []string{"github.com/vaughan0/go-ini", "github.com/marcopeereboom/goutil", "github.com/mitchellh/go-homedir"}

type loadErr struct {
	files []string
	first string
	msg   string
}

func (e *loadErr) Error() string { return e.msg }

func loadProgram(repo, harnDir string, files map[string]map[string]bool) (*Program, error) {
	var pkgRels []string
	for r := range files {
		pkgRels = append(pkgRels, r)
	}
	sort.Strings(pkgRels)
	p := &Program{repo: repo, harnDir: harnDir, overlay: map[string][]byte{}, harnesses: map[string][]string{}, target: map[*types.Package]bool{}, pkgs: map[string]*ssa.Package{}}
	depDirs := map[string]string{}
	for _, d := range depRewrite {
		cmd := exec.Command("go", "list", "-f", "{{.Dir}}|{{.Name}}", d)
		cmd.Dir = repo
		cmd.Env = goEnv()
		o, err := cmd.Output()
		if err != nil {
			continue
		}
		fs := strings.Split(strings.TrimSpace(string(o)), "|")
		depDirs[d] = fs[0]
		importRewrite[d] = modPath + "/zkv/dep/" + filepath.Base(d)
		importName[d] = fs[1]
	}
	// rewritten sources of the repository
	err := filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if fi.Name() == ".git" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") {
			return nil
		}
		if strings.HasSuffix(path, "_test.go") {
			p.removed = append(p.removed, path)
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if out, ch := rewriteImports(src); ch {
			p.overlay[path] = out
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	// small dependencies are copied so that their environment can be modelled
	for _, d := range depRewrite {
		dir := depDirs[d]
		if dir == "" {
			continue
		}
		fs, _ := filepath.Glob(dir + "/*.go")
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			out, _ := rewriteImports(src)
			p.overlay[repo+"/zkv/dep/"+filepath.Base(d)+"/"+filepath.Base(f)] = out
		}
	}
	// environment models
	models := harnDir + "/zkv"
	filepath.Walk(models, func(path string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(path, ".go") {
			b, _ := os.ReadFile(path)
			rel, _ := filepath.Rel(models, path)
			p.overlay[repo+"/zkv/"+rel] = b
		}
		return nil
	})
	// harnesses
	pats := []string{"./zkv", "./zkv/zkmodel"}
	for _, rel := range pkgRels {
		var fs []string
		for f := range files[rel] {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		var pkgName string
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			b2, _ := rewriteImports(b)
			p.overlay[repo+"/"+rel+"/zkvh_"+filepath.Base(f)] = b2
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, b, 0)
			if err != nil {
				return nil, err
			}
			pkgName = af.Name.Name
			for _, d := range af.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "ZkvH_") {
					p.harnesses[rel] = append(p.harnesses[rel], fd.Name.Name)
				}
			}
		}
		var tb bytes.Buffer
		fmt.Fprintf(&tb, "package %s\n\nimport (\n\t\"testing\"\n\t%q\n)\n\nfunc TestZkvReplay(t *testing.T) {\n\tzkv.Main(map[string]func(){\n", pkgName, modPath+"/zkv")
		for _, h := range p.harnesses[rel] {
			fmt.Fprintf(&tb, "\t\t%q: %s,\n", h, h)
		}
		tb.WriteString("\t})\n}\n")
		p.overlay[repo+"/"+rel+"/zkvh_replay_test.go"] = tb.Bytes()
		pats = append(pats, "./"+rel)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(), Overlay: map[string][]byte{}, BuildFlags: []string{"-tags=purego,math_big_pure_go"}}
	for k, v := range p.overlay {
		if !strings.HasSuffix(k, "_test.go") {
			cfg.Overlay[k] = v
		}
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	le := &loadErr{}
	packages.Visit(ps, nil, func(pk *packages.Package) {
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
			if i := strings.IndexByte(e.Pos, ':'); i > 0 && strings.Contains(e.Pos, "/zkvh_") {
				le.files = append(le.files, e.Pos[:i])
				if le.first == "" {
					le.first = e.Error()
				}
			}
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		le.msg = strings.Join(errs, "\n")
		return nil, le
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	for _, sp := range prog.AllPackages() {
		path := sp.Pkg.Path()
		if path == modPath || strings.HasPrefix(path, modPath+"/") {
			p.target[sp.Pkg] = true
		}
		if strings.HasPrefix(path, modPath+"/") {
			p.pkgs[strings.TrimPrefix(path, modPath+"/")] = sp
		}
	}
	rt := prog.ImportedPackage("runtime")
	p.rtErrType = rt.Type("errorString").Type()
	p.dummy = prog.ImportedPackage(modPath + "/zkv").Func("dummy")
	return p, nil
}

// writeOverlay stores the overlay for the go command; gate selects the
// schedule-controlled variant of the sources.
func (p *Program) writeOverlay(dir string) (string, error) {
	rep := map[string]string{}
	i := 0
	keys := make([]string, 0, len(p.overlay))
	for k := range p.overlay {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f := fmt.Sprintf("%s/ov%d_%s", dir, i, filepath.Base(k))
		i++
		if err := os.WriteFile(f, p.overlay[k], 0o644); err != nil {
			return "", err
		}
		rep[k] = f
	}
	for _, r := range p.removed {
		if _, ok := rep[r]; !ok {
			rep[r] = ""
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	f := dir + "/overlay.json"
	return f, os.WriteFile(f, b, 0o644)
}
