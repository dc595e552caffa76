package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	wordMu   sync.Mutex
	wordSets map[string][]string
	ssa        *ssa.Program
	pkgs       []*packages.Package
	entry      *ssa.Package
	fns        sync.Map // *ssa.Function -> *Fn
	closures   sync.Map // *ssa.Function -> *Closure
	globalIdx  map[*ssa.Global]int
	globalList []*ssa.Global
	globalName []string
	globalBad  []bool
	runtimeErr types.Type
	implCache  sync.Map
	methCache  sync.Map
	byName     sync.Map
	initOrder  []*ssa.Package
	parseCache sync.Map
	natCache   sync.Map
}

type methKey struct {
	t types.Type
	n string
}

// skipInit lists package-path prefixes whose initialisers are not run; reading
// one of their globals afterwards is reported as unsupported.
var skipInit = []string{"runtime", "internal/", "syscall", "os", "reflect", "sync", "time", "net", "crypto", "log", "fmt", "encoding/", "compress/",
	"github.com/sirupsen", "github.com/kr/", "google.golang.org/", "golang.org/x/", "github.com/davecgh", "plugin", "testing", "hash/", "mime", "math/rand", "math/big", "vendor/", "text/template", "html/", "embed", "database", "debug/", "archive/", "iter", "weak", "unique", "github.com/golang/protobuf", "runtime/"}

var keepInit = map[string]bool{"os/exec": true, "time": true, "fmt": true, "context": true, "math/rand": true, "internal/oserror": true, "internal/bytealg": true, "net/url": true, "net/textproto": true, "encoding/base64": true, "net/http/internal/ascii": true, "vendor/golang.org/x/net/http/httpguts": true, "golang.org/x/net/http/httpguts": true, "golang.org/x/tools/imports": false, "encoding": true}

func initSkipped(path string) bool {
	if k, ok := keepInit[path]; ok {
		return !k
	}
	for _, p := range skipInit {
		if path == p || strings.HasPrefix(path, p) && (strings.HasSuffix(p, "/") || strings.HasPrefix(path, p+"/")) {
			return true
		}
	}
	return false
}

type LoadSpec struct {
	Dir        string
	Patterns   []string
	Overlay    map[string]string // target path -> source file
	BuildFlags []string
	Env        []string
}

func loadProgram(spec LoadSpec, entryPath string) (*Program, error) {
	ov := map[string][]byte{}
	for dst, src := range spec.Overlay {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        spec.Dir,
		Overlay:    ov,
		BuildFlags: spec.BuildFlags,
		Env:        append(os.Environ(), spec.Env...),
	}
	pkgs, err := packages.Load(cfg, spec.Patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, p.PkgPath+": "+e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 20 {
			errs = errs[:20]
		}
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{ssa: prog, pkgs: pkgs, globalIdx: map[*ssa.Global]int{}}
	for _, sp := range prog.AllPackages() {
		if sp.Pkg.Path() == entryPath {
			p.entry = sp
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		bad := initSkipped(sp.Pkg.Path())
		for _, n := range names {
			if g, ok := sp.Members[n].(*ssa.Global); ok {
				p.globalIdx[g] = len(p.globalList)
				p.globalList = append(p.globalList, g)
				p.globalName = append(p.globalName, g.String())
				p.globalBad = append(p.globalBad, bad && !goodGlobal[g.String()])
			}
		}
	}
	if p.entry == nil {
		return nil, fmt.Errorf("entry package %s not loaded", entryPath)
	}
	if rp := prog.ImportedPackage("runtime"); rp != nil {
		if t := rp.Type("errorString"); t != nil {
			p.runtimeErr = t.Type()
		}
	}
	return p, nil
}

// goodGlobal: globals of skipped packages that the machine sets up itself.
var goodGlobal = map[string]bool{"os.Args": true, "os.Stdin": true, "os.Stdout": true, "os.Stderr": true, "os.ErrNotExist": true, "os.ErrExist": true, "os.ErrPermission": true, "os.ErrInvalid": true, "os.ErrClosed": true,
	"time.UTC": true, "time.Local": true, "os.init$guard": true}

func (p *Program) fn(f *ssa.Function) *Fn {
	if x, ok := p.fns.Load(f); ok {
		return x.(*Fn)
	}
	fn := &Fn{name: f.String(), ssa: f, prog: p, recover: -1}
	fn.pkgInit = f.Synthetic == "package initializer"
	if f.Pkg != nil {
		fn.inRepo = inRepo(f.Pkg.Pkg.Path())
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		fn.inRepo = inRepo(f.Object().Pkg().Path())
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		fn.inRepo = inRepo(f.Origin().Pkg.Pkg.Path())
	}
	name := fn.name
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if n, ok := intrinsics[name]; ok {
		fn.native = n
	} else if fn.pkgInit && initSkipped(f.Pkg.Pkg.Path()) {
		fn.native = func(m *Machine, fn *Fn, args []Value) Value { return Value{} }
	} else if fn.pkgInit && lateInit(f.Pkg.Pkg.Path()) {
		twin := &Fn{name: fn.name, ssa: f, prog: p, recover: -1, inRepo: fn.inRepo}
		fn.native = func(m *Machine, fn *Fn, args []Value) Value {
			if m.initPhase {
				return Value{}
			}
			return m.call(twin, args, nil)
		}
	} else if n := packageIntrinsic(f); n != nil {
		fn.native = n
	} else if r, ok := redirects[name]; ok {
		fn.native = func(m *Machine, fn *Fn, args []Value) Value {
			if strings.HasPrefix(r, verifRoot+"/vexec.") && p.ssa.ImportedPackage(verifRoot+"/vexec") == nil {
				m.unsupported("starting programs")
			}
			return m.call(p.fnByName(r), args, nil)
		}
	}
	x, _ := p.fns.LoadOrStore(f, fn)
	return x.(*Fn)
}

// lateInit: commands whose initialisers run when the program is started.
func lateInit(path string) bool { return strings.HasSuffix(path, "/srvmain") || strings.HasSuffix(path, "/climain") }

const verifRoot = "github.com/teamlint/baron/internal/zzverif"

func inRepo(path string) bool {
	switch strings.TrimPrefix(path, verifRoot) {
	case "/genapi/pb", "/baronmain", "/srv/pb", "/srv/server", "/srv/service", "/srv/srvmain", "/cli/pb", "/cli/climain":
		return true // generated by the code under test, or a copy of it
	}
	return strings.HasPrefix(path, "github.com/teamlint/baron") && !strings.HasPrefix(path, verifRoot)
}

func (p *Program) funcClosure(f *ssa.Function) *Closure {
	if x, ok := p.closures.Load(f); ok {
		return x.(*Closure)
	}
	x, _ := p.closures.LoadOrStore(f, &Closure{Fn: p.fn(f), Name: f.String()})
	return x.(*Closure)
}

func (p *Program) method(t types.Type, meth *types.Func) *Fn {
	k := methKey{canonType(t), meth.Id()}
	if x, ok := p.methCache.Load(k); ok {
		return x.(*Fn)
	}
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		return nil
	}
	f := p.ssa.MethodValue(sel)
	if f == nil {
		return nil
	}
	fn := p.fn(f)
	p.methCache.Store(k, fn)
	return fn
}

// methodNamed finds an exported method by name in t's method set.
func (p *Program) methodNamed(t types.Type, name string) *Fn {
	if _, isI := t.Underlying().(*types.Interface); isI {
		return nil
	}
	k := methKey{canonType(t), "." + name}
	if x, ok := p.methCache.Load(k); ok {
		f, _ := x.(*Fn)
		return f
	}
	var fn *Fn
	if sel := p.ssa.MethodSets.MethodSet(t).Lookup(nil, name); sel != nil {
		if f := p.ssa.MethodValue(sel); f != nil {
			fn = p.fn(f)
		}
	}
	p.methCache.Store(k, fn)
	return fn
}

// fnByName resolves "path.Func" or "(*path.T).M" / "(path.T).M".
func (p *Program) fnByName(name string) *Fn {
	if x, ok := p.byName.Load(name); ok {
		return x.(*Fn)
	}
	i := strings.LastIndex(name, ".")
	pkg := p.ssa.ImportedPackage(name[:i])
	if pkg == nil {
		for _, q := range p.ssa.AllPackages() {
			if q.Pkg.Path() == name[:i] {
				pkg = q
			}
		}
	}
	if pkg == nil {
		panic("no package for " + name)
	}
	f := pkg.Func(name[i+1:])
	if f == nil {
		panic("no function " + name)
	}
	fn := p.fn(f)
	p.byName.Store(name, fn)
	return fn
}

func (p *Program) typeByName(pkg, name string) types.Type {
	for _, q := range p.ssa.AllPackages() {
		if q.Pkg.Path() == pkg {
			if t := q.Type(name); t != nil {
				return t.Type()
			}
		}
	}
	return nil
}

func newMachine(p *Program, id int) *Machine {
	tt := newTermTab()
	m := &Machine{prog: p, id: id, tt: tt, sol: newSolver(solverBin, solverTimeout, tt), maxSteps: maxSteps, fnSeen: map[*Fn]bool{}, tmpls: map[*Value]*tmplState{}, hostState: map[string]any{}}
	m.stackBuf = make([]Value, 1<<16)
	m.initPhase = true
	save := m.maxSteps
	m.maxSteps = 1 << 40
	m.globals = make([]*Value, len(p.globalList))
	for i := range p.globalList {
		if !p.globalBad[i] {
			m.global(i)
		}
	}
	m.nameCnt = map[string]int{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(*pathEnd); ok {
					fatalf("package initialisation failed: %s", pe.msg)
				}
				if ip, ok := r.(*ipanic); ok {
					fatalf("package initialisation panicked: %s%s", m.panicText(ip.v), ip.where)
				}
				panic(r)
			}
		}()
		if g := m.globalByName("os.Args"); g != nil {
			s := m.slots(1)
			s[0] = strV("baron")
			*g = Value{O: &Slice{E: s}}
		}
		m.call(p.fn(p.entry.Func("init")), nil, nil)
		for _, extra := range []string{"errors", "io/fs", "internal/oserror", "vendor/golang.org/x/net/http/httpguts", "net/url", "net/textproto", "encoding/base64", "time", "fmt", "context", "math/rand"} {
			q := p.ssa.ImportedPackage(extra)
			for _, o := range p.ssa.AllPackages() {
				if q == nil && o.Pkg.Path() == extra {
					q = o
				}
			}
			if q != nil {
				m.call(p.fn(q.Func("init")), nil, nil)
			}
		}
		m.hostGlobals()
	}()
	m.initPhase = false
	m.maxSteps = save
	m.steps = 0
	return m
}

// global is the slot of the i-th global; those of packages that are not
// initialised get theirs when an initialiser uses them.
func (m *Machine) global(i int) *Value {
	if m.globals[i] == nil {
		s := m.newSlot()
		*s = m.zero(deref(m.prog.globalList[i].Type()))
		m.globals[i] = s
	}
	return m.globals[i]
}

func (m *Machine) globalByName(name string) *Value {
	for i, n := range m.prog.globalName {
		if n == name {
			return m.global(i)
		}
	}
	return nil
}

func (m *Machine) hostGlobals() {
	cp := func(dst, src string) {
		d, s := m.globalByName(dst), m.globalByName(src)
		if d != nil && s != nil {
			*d = *s
		}
	}
	cp("os.ErrNotExist", "internal/oserror.ErrNotExist")
	cp("os.ErrExist", "internal/oserror.ErrExist")
	cp("os.ErrPermission", "internal/oserror.ErrPermission")
	cp("os.ErrInvalid", "internal/oserror.ErrInvalid")
	cp("os.ErrClosed", "internal/oserror.ErrClosed")
	for _, n := range []string{"os.Stdin", "os.Stdout", "os.Stderr"} {
		if g := m.globalByName(n); g != nil {
			if ft := m.prog.typeByName("os", "File"); ft != nil {
				s := m.newSlot()
				*s = m.zero(ft)
				*g = Value{O: s}
			}
		}
	}
	if g := m.globalByName("os.Args"); g != nil {
		s := m.slots(1)
		s[0] = strV("baron")
		*g = Value{O: &Slice{E: s}}
	}
}

// overlayDir maps every .go file below src to dst/<rel>.
func overlayDir(ov map[string]string, src, dst string) error {
	return filepath.Walk(src, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(src, p)
		ov[filepath.Join(dst, rel)] = p
		return nil
	})
}
