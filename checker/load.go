package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/kwilteam/kuneiform"

// Program is the type-checked, SSA-built view of the repository.
type Program struct {
	Fset   *token.FileSet
	Prog   *ssa.Program
	Pkgs   []*packages.Package // repository packages
	All    map[string]*packages.Package
	mu     sync.Mutex
	built  map[*ssa.Package]bool
	GOARCH string
	live   map[*ssa.Function]*liveness
	rec    map[*ssa.Function]bool
}

func repoDir() string {
	if d := os.Getenv("KF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadProgram(wasm bool, tests bool) (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	arch := "host"
	if wasm {
		env = append(env, "GOOS=js", "GOARCH=wasm")
		arch = "wasm"
	} else {
		env = append(env, "GOOS=linux", "GOARCH=amd64")
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repoDir(), Env: env, Fset: fset, Tests: false,
	}
	pats := []string{"./..."}
	if wasm {
		pats = []string{"./wasm"}
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	p := &Program{Fset: fset, All: map[string]*packages.Package{}, built: map[*ssa.Package]bool{}, GOARCH: arch, live: map[*ssa.Function]*liveness{}}
	var errs []string
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		p.All[pk.PkgPath] = pk
		if strings.HasPrefix(pk.PkgPath, modPath) {
			for _, e := range pk.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("repository does not type-check: %s", strings.Join(errs, "; "))
	}
	for path, pk := range p.All {
		if path == modPath || strings.HasPrefix(path, modPath+"/") {
			p.Pkgs = append(p.Pkgs, pk)
		}
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	if len(p.Pkgs) == 0 {
		return nil, fmt.Errorf("no repository packages loaded")
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.Prog = prog
	for _, pk := range p.Pkgs {
		sp := prog.Package(pk.Types)
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pk.PkgPath)
		}
		p.ensureBuilt(sp)
	}
	return p, nil
}

func (p *Program) ensureBuilt(sp *ssa.Package) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if sp == nil || p.built[sp] {
		return
	}
	p.built[sp] = true
	sp.Build()
}

func (p *Program) pkg(rel string) *ssa.Package {
	path := modPath
	if rel != "" {
		path += "/" + rel
	}
	pk := p.All[path]
	if pk == nil {
		return nil
	}
	return p.Prog.Package(pk.Types)
}

func (p *Program) fn(rel, name string) *ssa.Function {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

func (p *Program) typ(rel, name string) types.Type {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (p *Program) extTyp(path, name string) types.Type {
	pk := p.All[path]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (p *Program) extFn(path, name string) *ssa.Function {
	pk := p.All[path]
	if pk == nil {
		return nil
	}
	sp := p.Prog.Package(pk.Types)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Program) method(t types.Type, name string) *ssa.Function {
	ms := p.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func isRepoPkg(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func fnPkgPath(f *ssa.Function) string {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
		if f.Origin() != nil && f.Origin() != f {
			f = f.Origin()
			continue
		}
		if f.Parent() != nil {
			f = f.Parent()
			continue
		}
		// synthetic wrappers: use receiver type
		if f.Signature.Recv() != nil {
			t := f.Signature.Recv().Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path()
			}
		}
		return ""
	}
	return ""
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.Fset.Position(ps)
	f := strings.TrimPrefix(q.Filename, repoDir()+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// liveness: registers live at block entry, and after each call instruction.
type liveness struct {
	in    []map[ssa.Value]bool
	after map[ssa.Instruction]map[ssa.Value]bool
	// headers: loop headers (targets of back edges in DFS order)
	header []bool
	// inLoop[h][b]: block b belongs to the loop headed by h
	inLoop map[int]map[int]bool
	// mem[b]: local variables whose content may be read from block b on
	mem []map[*ssa.Alloc]bool
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
		return false
	}
	return v != nil
}

func (p *Program) liveOf(f *ssa.Function) *liveness {
	p.mu.Lock()
	defer p.mu.Unlock()
	if l, ok := p.live[f]; ok {
		return l
	}
	n := len(f.Blocks)
	l := &liveness{in: make([]map[ssa.Value]bool, n), after: map[ssa.Instruction]map[ssa.Value]bool{}, header: make([]bool, n)}
	for i := range l.in {
		l.in[i] = map[ssa.Value]bool{}
	}
	out := func(b *ssa.BasicBlock) map[ssa.Value]bool {
		o := map[ssa.Value]bool{}
		for _, s := range b.Succs {
			for v := range l.in[s.Index] {
				o[v] = true
			}
			for _, ins := range s.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				for i, pr := range s.Preds {
					if pr == b && trackable(ph.Edges[i]) {
						o[ph.Edges[i]] = true
					}
				}
			}
		}
		return o
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := out(b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				var ops [16]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if *op != nil && trackable(*op) {
						cur[*op] = true
					}
				}
			}
			// the named results must survive for the recover block
			if len(cur) != len(l.in[i]) {
				l.in[i] = cur
				changed = true
			}
		}
	}
	// results needed in the recover block stay live throughout
	if f.Recover != nil {
		for v := range l.in[f.Recover.Index] {
			for i := range l.in {
				l.in[i][v] = true
			}
		}
	}
	for _, b := range f.Blocks {
		cur := out(b)
		if f.Recover != nil {
			for v := range l.in[f.Recover.Index] {
				cur[v] = true
			}
		}
		for j := len(b.Instrs) - 1; j >= 0; j-- {
			ins := b.Instrs[j]
			switch ins.(type) {
			case *ssa.Call, *ssa.RunDefers, *ssa.Panic:
				m := map[ssa.Value]bool{}
				for v := range cur {
					m[v] = true
				}
				l.after[ins] = m
			}
			if v, ok := ins.(ssa.Value); ok {
				delete(cur, v)
			}
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			var ops [16]*ssa.Value
			for _, op := range ins.Operands(ops[:0]) {
				if *op != nil && trackable(*op) {
					cur[*op] = true
				}
			}
		}
	}
	// back edges by DFS
	color := make([]int, n)
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		color[b.Index] = 1
		for _, s := range b.Succs {
			if color[s.Index] == 1 {
				l.header[s.Index] = true
			} else if color[s.Index] == 0 {
				dfs(s)
			}
		}
		color[b.Index] = 2
	}
	if n > 0 {
		dfs(f.Blocks[0])
		if f.Recover != nil && color[f.Recover.Index] == 0 {
			dfs(f.Recover)
		}
	}
	l.inLoop = map[int]map[int]bool{}
	for h := range l.header {
		if !l.header[h] {
			continue
		}
		m := map[int]bool{h: true}
		var back func(b *ssa.BasicBlock)
		back = func(b *ssa.BasicBlock) {
			if m[b.Index] {
				return
			}
			m[b.Index] = true
			for _, pr := range b.Preds {
				back(pr)
			}
		}
		for _, pr := range f.Blocks[h].Preds {
			if f.Blocks[h].Dominates(pr) {
				back(pr)
			}
		}
		l.inLoop[h] = m
	}
	l.mem = memLive(f)
	p.live[f] = l
	return l
}

// memLive: the allocations whose content may be used before being
// overwritten as a whole.
func memLive(f *ssa.Function) []map[*ssa.Alloc]bool {
	in := make([]map[*ssa.Alloc]bool, len(f.Blocks))
	for i := range in {
		in[i] = map[*ssa.Alloc]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := map[*ssa.Alloc]bool{}
			for _, s := range b.Succs {
				for a := range in[s.Index] {
					cur[a] = true
				}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for _, e := range ph.Edges {
						if a, ok := e.(*ssa.Alloc); ok {
							cur[a] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if a, ok := ins.(*ssa.Alloc); ok {
					delete(cur, a)
					continue
				}
				if s, ok := ins.(*ssa.Store); ok {
					if a, ok := s.Addr.(*ssa.Alloc); ok {
						delete(cur, a)
					}
					if a, ok := s.Val.(*ssa.Alloc); ok {
						cur[a] = true
					}
					continue
				}
				var ops [16]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if a, ok := (*op).(*ssa.Alloc); ok {
						cur[a] = true
					}
				}
			}
			if f.Recover != nil {
				for a := range in[f.Recover.Index] {
					cur[a] = true
				}
			}
			if len(cur) != len(in[i]) {
				in[i] = cur
				changed = true
			}
		}
	}
	return in
}
