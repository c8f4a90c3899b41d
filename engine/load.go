package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "github.com/apache/datasketches-go"
const zzPath = modPath + "/internal/zzsym"

var (
	repoDir  = envOr("GOSYM_REPO", "/repo")
	verifDir = envOr("GOSYM_VERIF", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// HarnessRun is one harness with concrete arguments and exploration limits.
type HarnessRun struct {
	Name           string  // package-qualified: relpkg.Func
	Args           []int64 // concrete arguments
	Merge          bool
	MergeSteps     int64
	MaxMux         int
	QueryTimeoutMs int
	Samples        int
	MaxViol        int
	MaxDecisions   int
	MaxConcretize  int
	MaxSteps       int64
	MaxPaths       int64
	Budget         float64 // seconds
	Covers         []string

	fn      *ssa.Function
	setupFn *ssa.Function
	known   func(label, detail string) bool
}

// Engine holds the loaded program.
type Engine struct {
	prog    *ssa.Program
	fset    *token.FileSet
	roots   []*ssa.Package
	pkgs    map[string]*ssa.Package
	overlay map[string][]byte
	dropped []string
	mu      sync.Mutex
	canonM  typeutil.Map
	implM   map[[2]types.Type]bool

	errStringT *types.Pointer
	wrapErrT   *types.Pointer
	loadSecs   float64
	hashHooks  []string
}

var importMap = map[string]string{
	"math/rand":                    zzPath + "/vrand",
	"math/rand/v2":                 zzPath + "/vrand2",
	"crypto/rand":                  zzPath + "/vcrand",
	"github.com/twmb/murmur3":      zzPath + "/vmurmur",
	"github.com/cespare/xxhash/v2": zzPath + "/vxx",
}

var hashFuncs = map[string]string{
	"HashInt64SliceMurmur3": "HashInt64Slice",
	"HashInt32SliceMurmur3": "HashInt32Slice",
	"HashByteArrMurmur3":    "HashBytes",
	"HashCharSliceMurmur3":  "HashChars",
}

// buildOverlay creates the rewritten repo sources and the harness packages.
func (e *Engine) buildOverlay() error {
	e.overlay = map[string][]byte{}
	// harness API
	if err := filepath.Walk(filepath.Join(verifDir, "zzsym"), func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(filepath.Join(verifDir, "zzsym"), p)
		b, err := os.ReadFile(p)
		e.overlay[filepath.Join(repoDir, "internal/zzsym", rel)] = b
		return err
	}); err != nil {
		return err
	}
	// harnesses: /verif/harness/<relpkg>/*.go -> /repo/<relpkg>/zz_*.go
	hd := filepath.Join(verifDir, "harness")
	if err := filepath.Walk(hd, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(hd, p)
		b, err := os.ReadFile(p)
		e.overlay[filepath.Join(repoDir, filepath.Dir(rel), "zz_"+filepath.Base(rel))] = b
		return err
	}); err != nil {
		return err
	}
	// rewrite repo files
	return filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != repoDir || fi.Name() == "examples" || fi.Name() == "serialization_test_data" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		nb, changed, err := e.rewrite(p, b)
		if err != nil {
			return err
		}
		if changed {
			e.overlay[p] = nb
		}
		return nil
	})
}

func (e *Engine) rewrite(path string, src []byte) ([]byte, bool, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	type edit struct {
		lo, hi int
		text   string
	}
	var eds []edit
	for _, im := range f.Imports {
		pth := strings.Trim(im.Path.Value, `"`)
		if to, ok := importMap[pth]; ok {
			lo, hi := fs.Position(im.Path.Pos()).Offset, fs.Position(im.Path.End()).Offset
			name := ""
			if im.Name == nil {
				base := filepath.Base(pth)
				if base == "v2" {
					base = filepath.Base(filepath.Dir(pth))
				}
				name = base + " "
			}
			eds = append(eds, edit{lo, hi, name + `"` + to + `"`})
		}
	}
	var extra string
	if filepath.Dir(path) == filepath.Join(repoDir, "internal") {
		hooked := false
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			to, ok := hashFuncs[fd.Name.Name]
			if !ok || len(fd.Type.Params.List) == 0 {
				continue
			}
			off := fs.Position(fd.Name.Pos()).Offset
			eds = append(eds, edit{off, off + len(fd.Name.Name), fd.Name.Name + "_zzreal"})
			var pb bytes.Buffer
			cfg := printer.Config{Mode: printer.RawFormat}
			cfg.Fprint(&pb, fs, fd.Type)
			sig := strings.TrimPrefix(pb.String(), "func")
			var names []string
			for _, p := range fd.Type.Params.List {
				for _, n := range p.Names {
					names = append(names, n.Name)
				}
			}
			al := strings.Join(names, ", ")
			extra += fmt.Sprintf("\nfunc %s%s {\n\tif zzsym.HashFree {\n\t\treturn zzsym.%s(%s)\n\t}\n\treturn %s_zzreal(%s)\n}\n", fd.Name.Name, sig, to, al, fd.Name.Name, al)
			e.hashHooks = append(e.hashHooks, fd.Name.Name)
			hooked = true
		}
		if hooked {
			off := fs.Position(f.Name.End()).Offset
			eds = append(eds, edit{off, off, "; import \"" + zzPath + "\""})
		}
	}
	if len(eds) == 0 {
		return src, false, nil
	}
	sort.Slice(eds, func(i, j int) bool { return eds[i].lo < eds[j].lo })
	var out []byte
	pos := 0
	for _, ed := range eds {
		out = append(out, src[pos:ed.lo]...)
		out = append(out, ed.text...)
		pos = ed.hi
	}
	out = append(out, src[pos:]...)
	out = append(out, extra...)
	return out, true, nil
}

func goEnv() []string {
	env := os.Environ()
	goroot := envOr("GOSYM_GOROOT", "/opt/veriftools/go1.24.13")
	set := map[string]string{"GOROOT": goroot, "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOWORK": "off",
		"HOME": "/root", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": envOr("GOCACHE", "/root/.cache/go-build"), "PATH": goroot + "/bin:" + os.Getenv("PATH"), "CGO_ENABLED": "0"}
	var r []string
	for _, kv := range env {
		k := kv[:strings.IndexByte(kv, '=')]
		if _, ok := set[k]; !ok {
			r = append(r, kv)
		}
	}
	for k, v := range set {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return r
}

// load type-checks and builds SSA for the packages containing the harnesses.
func (e *Engine) load(relpkgs []string) error {
	for attempt := 0; ; attempt++ {
		env := goEnv()
		for _, kv := range env {
			if strings.HasPrefix(kv, "PATH=") {
				os.Setenv("PATH", kv[5:])
			}
		}
		cfg := &packages.Config{
			Mode:       packages.LoadAllSyntax | packages.NeedModule,
			Dir:        repoDir,
			Env:        env,
			Overlay:    e.overlay,
			BuildFlags: []string{"-tags=purego"},
		}
		var pats []string
		for _, r := range relpkgs {
			pats = append(pats, modPath+"/"+r)
		}
		pats = append(pats, zzPath)
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return err
		}
		bad := map[string]string{}
		var other []string
		re := regexp.MustCompile(`^(/[^:]+\.go):`)
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, er := range p.Errors {
				m := re.FindStringSubmatch(er.Pos + ":")
				if m != nil {
					if strings.HasPrefix(filepath.Base(m[1]), "zz_") {
						bad[m[1]] = er.Error()
						continue
					}
				}
				other = append(other, er.Error())
			}
		})
		if len(bad) > 0 && attempt < 5 {
			for f, msg := range bad {
				delete(e.overlay, f)
				e.dropped = append(e.dropped, f+": "+msg)
			}
			continue
		}
		if len(other) > 0 {
			return fmt.Errorf("type errors: %s %s", strings.Join(other[:min(5, len(other))], "; "), strings.Join(e.dropped, "; "))
		}
		prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		prog.Build()
		e.prog = prog
		e.fset = prog.Fset
		e.pkgs = map[string]*ssa.Package{}
		for _, p := range prog.AllPackages() {
			e.pkgs[p.Pkg.Path()] = p
		}
		for _, p := range pkgs {
			if sp := prog.Package(p.Types); sp != nil {
				e.roots = append(e.roots, sp)
			}
		}
		break
	}
	e.canonM.SetHasher(typeutil.MakeHasher())
	e.implM = map[[2]types.Type]bool{}
	if p := e.pkgs["errors"]; p != nil {
		e.errStringT = types.NewPointer(p.Type("errorString").Object().Type())
	}
	if p := e.pkgs["fmt"]; p != nil {
		if t := p.Type("wrapError"); t != nil {
			e.wrapErrT = types.NewPointer(t.Object().Type())
		}
	}
	return nil
}

// find locates a harness function relpkg.Func.
func (e *Engine) find(name string) *ssa.Function {
	i := strings.LastIndexByte(name, '.')
	p := e.pkgs[modPath+"/"+name[:i]]
	if p == nil {
		return nil
	}
	return p.Func(name[i+1:])
}

var initAllow = map[string]bool{
	"io": true, "strconv": true, "bytes": true, "strings": true, "unicode/utf8": true, "math": true,
	"math/bits": true, "encoding/binary": true, "slices": true, "sort": true, "cmp": true, "iter": true, "maps": true,
	"internal/byteorder": true, "internal/itoa": true, "internal/stringslite": true,
}

func (e *Engine) runInit(path string) bool {
	if strings.HasPrefix(path, modPath) || initAllow[path] {
		return true
	}
	return strings.HasPrefix(path, "github.com/") || strings.HasPrefix(path, "golang.org/x/exp")
}

func (in *Interp) initForeignGlobal(g *ssa.Global, o *Obj) {}
func (in *Interp) foreignOK(g *ssa.Global) bool            { return false }

func (e *Engine) isRepoFn(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	var path string
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	if !strings.HasPrefix(path, modPath) || strings.Contains(path, "/zz") {
		return false
	}
	if fn.Pos().IsValid() {
		return !strings.HasPrefix(filepath.Base(e.fset.Position(fn.Pos()).Filename), "zz_")
	}
	return true
}

func (e *Engine) lineOf(fn *ssa.Function, i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	pos := i.Pos()
	if !pos.IsValid() {
		if b := i.Block(); b != nil {
			for _, j := range b.Instrs {
				if j.Pos().IsValid() {
					pos = j.Pos()
					if j == i {
						break
					}
				}
			}
		}
	}
	if !pos.IsValid() {
		pos = fn.Pos()
	}
	p := e.fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
}

func (e *Engine) canonType(t types.Type) types.Type {
	e.mu.Lock()
	defer e.mu.Unlock()
	if c := e.canonM.At(t); c != nil {
		return c.(types.Type)
	}
	e.canonM.Set(t, t)
	return t
}

func (e *Engine) implements(t, iface types.Type) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := [2]types.Type{t, iface}
	if r, ok := e.implM[k]; ok {
		return r
	}
	r := types.Implements(t, iface.Underlying().(*types.Interface))
	e.implM[k] = r
	return r
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	sel := e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (e *Engine) redirect(fn *ssa.Function) *ssa.Function { return nil }

// writeOverlay stores the overlay on disk for the go command; returns the JSON file.
func (e *Engine) writeOverlay(dir string, extra map[string][]byte) (string, error) {
	rep := map[string]string{}
	n := 0
	put := func(p string, b []byte) error {
		n++
		f := filepath.Join(dir, fmt.Sprintf("o%d_%s", n, filepath.Base(p)))
		rep[p] = f
		return os.WriteFile(f, b, 0o644)
	}
	for p, b := range e.overlay {
		if err := put(p, b); err != nil {
			return "", err
		}
	}
	for p, b := range extra {
		if err := put(p, b); err != nil {
			return "", err
		}
	}
	js, _ := json.Marshal(map[string]any{"Replace": rep})
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, js, 0o644)
}
