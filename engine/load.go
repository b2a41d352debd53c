package main

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "github.com/carlakc/boltnd"

// Loader holds everything shared between workers: the type-checked program,
// its SSA form and the compiled function bodies. All of it is derived from the
// current source of the repository under test.
type Loader struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	harness *ssa.Package
	sizes   types.Sizes

	tcache, ecache sync.Map

	cmu  sync.Mutex
	code map[*ssa.Function]*fnCode
	ccur sync.Map // *ssa.Function -> *fnCode

	bmu   sync.Mutex
	built map[*ssa.Package]bool

	rmu    sync.Mutex
	rtypes typeutil.Map // types.Type -> *RType
	rlist  []*RType

	gmu  sync.Mutex
	gidx map[*ssa.Global]int

	fnv   sync.Map // *ssa.Function -> *Closure
	msets sync.Map

	loadTime time.Duration
	fmu      sync.Mutex
	funcs    map[string]bool // encoded functions
}

// overlayFor maps harness sources into the module under test.
func overlayFor(verif, repo, harness string) (map[string][]byte, map[string]string, error) {
	ov := map[string][]byte{}
	names := map[string]string{}
	add := func(src, dst string) error {
		ents, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			p := filepath.Join(src, e.Name())
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			d := filepath.Join(repo, dst, e.Name())
			ov[d] = b
			names[d] = p
		}
		return nil
	}
	if err := add(filepath.Join(verif, "sym"), "zzverif/sym"); err != nil {
		return nil, nil, err
	}
	if err := add(filepath.Join(verif, "hlib"), "zzverif/hlib"); err != nil && !os.IsNotExist(err) {
		return nil, nil, err
	}
	if err := add(filepath.Join(verif, "harness", harness), "zzverif/"+harness); err != nil {
		return nil, nil, err
	}
	return ov, names, nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOROOT", "GOPATH", "GOMODCACHE", "GOCACHE", "GOTOOLCHAIN", "GOFLAGS", "GOPROXY", "GOWORK":
			continue
		}
		env = append(env, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
		env = append(env, "HOME=/root")
	}
	root := "/opt/veriftools/go1.23.12"
	env = append(env,
		"PATH="+root+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOROOT="+root, "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod",
		"GOCACHE=/root/.cache/go-build", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod",
		"GOPROXY=off", "GOWORK=off")
	return env
}

// lndStub replaces the function that connects to lnd by one that asks a hook.
const lndStub = `

// VerifConnect stands in for the connection to lnd.
var VerifConnect func(cfg *LndServicesConfig) (s *LndServices, cleanup func(), err error)

// NewLndServices connects to what VerifConnect provides.
func NewLndServices(cfg *LndServicesConfig) (*GrpcLndServices, error) {
	s, cleanup, err := VerifConnect(cfg)
	if err != nil {
		return nil, err
	}
	return &GrpcLndServices{LndServices: *s, cleanup: cleanup}, nil
}
`

// modFlags makes a module file in which lndclient is replaced by a copy that
// connects to a stand-in for lnd.
func modFlags(repo, harness, tmp string) ([]string, error) {
	if harness != "boltnd" {
		return nil, nil
	}
	const mod = "github.com/lightninglabs/lndclient"
	file := filepath.Join(tmp, "go.mod")
	if _, err := os.Stat(file); err == nil {
		return []string{"-modfile=" + file}, nil
	}
	cmd := exec.Command("/opt/veriftools/go1.23.12/bin/go", "list", "-m", "-f", "{{.Dir}}", mod)
	cmd.Dir, cmd.Env = repo, goEnv()
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("lndclient: %v", err)
	}
	src, dst := strings.TrimSpace(string(out)), filepath.Join(tmp, "lndclient")
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return nil, err
	}
	ents, err := os.ReadDir(src)
	if err != nil {
		return nil, err
	}
	found := false
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || n != "go.mod" && (!strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go")) {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, n))
		if err != nil {
			return nil, err
		}
		if s := string(b); strings.Contains(s, "\nfunc NewLndServices(") {
			b = []byte(strings.Replace(s, "\nfunc NewLndServices(", "\nfunc realNewLndServices(", 1) + lndStub)
			found = true
		}
		if err := os.WriteFile(filepath.Join(dst, n), b, 0o644); err != nil {
			return nil, err
		}
	}
	if !found {
		return nil, fmt.Errorf("lndclient: NewLndServices not found")
	}
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	lines := strings.Split(string(b), "\n")
	keep := lines[:0]
	for _, l := range lines {
		if !strings.HasPrefix(l, "replace "+mod+" ") {
			keep = append(keep, l)
		}
	}
	keep = append(keep, "replace "+mod+" => "+dst, "")
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(file, []byte(strings.Join(keep, "\n")), 0o644); err != nil {
		return nil, err
	}
	return []string{"-modfile=" + file}, nil
}

func Load(verif, repo, harness, tmp string) (*Loader, error) {
	t0 := time.Now()
	ov, _, err := overlayFor(verif, repo, harness)
	if err != nil {
		return nil, err
	}
	env := goEnv()
	for _, kv := range env {
		if strings.HasPrefix(kv, "PATH=") {
			os.Setenv("PATH", kv[5:])
		}
	}
	mod, err := modFlags(repo, harness, tmp)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		Env:        env,
		Overlay:    ov,
		BuildFlags: append(mod, "-tags=nolog,purego"),
	}
	pkgs, err := packages.Load(cfg, "./zzverif/"+harness)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog := ssa.NewProgram(pkgs[0].Fset, ssa.InstantiateGenerics)
	l := &Loader{
		prog:  prog,
		pkgs:  map[string]*ssa.Package{},
		code:  map[*ssa.Function]*fnCode{},
		built: map[*ssa.Package]bool{},
		gidx:  map[*ssa.Global]int{},
		funcs: map[string]bool{},
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types != nil && !p.IllTyped {
			sp := prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
			l.pkgs[p.PkgPath] = sp
		}
	})
	l.sizes = pkgs[0].TypesSizes
	l.harness = l.pkgs[modPath+"/zzverif/"+harness]
	if l.harness == nil {
		return nil, fmt.Errorf("harness package not loaded")
	}
	l.loadTime = time.Since(t0)
	return l, nil
}

func (l *Loader) build(p *ssa.Package) {
	if p == nil {
		return
	}
	l.bmu.Lock()
	defer l.bmu.Unlock()
	if l.built[p] {
		return
	}
	l.built[p] = true
	p.Build()
}

func (l *Loader) rtype(t types.Type) *RType {
	l.rmu.Lock()
	defer l.rmu.Unlock()
	if r := l.rtypes.At(t); r != nil {
		return r.(*RType)
	}
	r := &RType{t: t, id: len(l.rlist) + 1}
	l.rlist = append(l.rlist, r)
	l.rtypes.Set(t, r)
	return r
}

func (l *Loader) globalIndex(g *ssa.Global) int {
	l.gmu.Lock()
	defer l.gmu.Unlock()
	if i, ok := l.gidx[g]; ok {
		return i
	}
	i := len(l.gidx)
	l.gidx[g] = i
	return i
}

func (l *Loader) fnValue(f *ssa.Function) *Closure {
	if c, ok := l.fnv.Load(f); ok {
		return c.(*Closure)
	}
	c, _ := l.fnv.LoadOrStore(f, &Closure{fn: f})
	return c.(*Closure)
}

// method finds the implementation of a method on a dynamic type.
type methKey struct {
	t    *RType
	name string
	pkg  *types.Package
}

func (l *Loader) lookupMethod(t *RType, m *types.Func) *ssa.Function {
	k := methKey{t, m.Name(), nil}
	if !m.Exported() {
		k.pkg = m.Pkg()
	}
	if f, ok := l.msets.Load(k); ok {
		return f.(*ssa.Function)
	}
	l.bmu.Lock()
	defer l.bmu.Unlock()
	f := l.prog.LookupMethod(t.t, m.Pkg(), m.Name())
	l.msets.Store(k, f)
	return f
}

// methodByName finds an exported method by name on a dynamic type or nil.
func (l *Loader) methodByName(t types.Type, name string) *ssa.Function {
	l.bmu.Lock()
	defer l.bmu.Unlock()
	ms := l.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return l.prog.MethodValue(sel)
}

type implKey struct {
	t *RType
	i *types.Interface
}

func (l *Loader) implements(t *RType, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	k := implKey{t, it}
	if v, ok := l.msets.Load(k); ok {
		return v.(bool)
	}
	l.bmu.Lock()
	r := types.Implements(t.t, it)
	l.bmu.Unlock()
	l.msets.Store(k, r)
	return r
}

// pkgType finds a named type in a loaded package.
func (l *Loader) pkgType(pkg, name string) types.Type {
	p := l.pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (l *Loader) pkgFunc(pkg, name string) *ssa.Function {
	p := l.pkgs[pkg]
	if p == nil {
		return nil
	}
	l.build(p)
	return p.Func(name)
}

func (l *Loader) noteFunc(f *ssa.Function) {
	l.fmu.Lock()
	l.funcs[f.String()] = true
	l.fmu.Unlock()
}
