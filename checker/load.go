package main

import (
	"bytes"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/arterynetwork/artr"

// Program is the resolved program under analysis: /repo's current working tree, type-checked with the
// build's own toolchain and flags, in SSA form (bodies for the repository's packages only).
type Program struct {
	Repo      string
	Fset      *token.FileSet
	Pkgs      []*packages.Package
	byRel     map[string]*packages.Package
	SSA       *ssa.Program
	ssaPk     map[*types.Package]*ssa.Package
	Funcs     []*ssa.Function // every repo function with a body (incl. closures)
	impls     map[string][]*ssa.Function
	named     []types.Type
	stores    map[string]string
	strFields map[string]string
	cg        *edges
	msgs      []msgMethod
	writers   map[*ssa.Function]bool
	sops      []storeOp
	gfns      map[*ssa.Global]*ssa.Function
}

func buildEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOROOT", "GOBIN", "GOEXPERIMENT", "GOENV", "GOPATH", "GOMODCACHE", "GOCACHE", "GOTOOLCHAIN", "GOWORK", "GOPROXY", "GOFLAGS", "HOME", "LANG", "GOARCH", "GOOS", "CGO_ENABLED":
			continue
		}
		env = append(env, e)
	}
	env = append(env,
		"HOME=/root", "LANG=C.UTF-8",
		"PATH=/opt/vp/tools/bin:/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOENV=off", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build",
		"GOTOOLCHAIN=local", "GOWORK=off", "GOPROXY=off", "GOFLAGS=-mod=readonly")
	return env
}

// generateOverlay regenerates the protobuf code from the tree's .proto files in a scratch directory and returns
// the files that differ from the ones lying in the tree (git ignores them there).
func generateOverlay(repo string) (map[string][]byte, error) {
	out, err := os.MkdirTemp("", "artrgen")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(out)
	dirs := map[string][]string{}
	err = filepath.Walk(filepath.Join(repo, "proto"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() && strings.HasSuffix(p, ".proto") {
			dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], p)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	keys := []string{}
	for d := range dirs {
		keys = append(keys, d)
	}
	sort.Strings(keys)
	for _, d := range keys {
		fs := []string{}
		for _, f := range dirs[d] {
			rel, _ := filepath.Rel(repo, f)
			fs = append(fs, "./"+rel)
		}
		sort.Strings(fs)
		args := []string{"-I", "proto", "-I", "third_party/proto",
			"--gocosmos_out=plugins=interfacetype+grpc,Mgoogle/protobuf/any.proto=github.com/cosmos/cosmos-sdk/codec/types:" + out,
			"--grpc-gateway_out=logtostderr=true:" + out}
		cmd := exec.Command(protocPath(), append(args, fs...)...)
		cmd.Dir = repo
		cmd.Env = buildEnv()
		if b, err := cmd.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("protoc: %v: %s", err, b)
		}
	}
	overlay := map[string][]byte{}
	gen := filepath.Join(out, modPath)
	err = filepath.Walk(gen, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(gen, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		dst := filepath.Join(repo, rel)
		if cur, err := os.ReadFile(dst); err != nil || !bytes.Equal(cur, b) {
			overlay[dst] = b
		}
		return nil
	})
	return overlay, err
}

func loadProgram(repo string) (*Program, error) {
	overlay, err := generateOverlay(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "note: using the generated code lying in the tree:", err)
		overlay = nil
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule,
		Dir: repo, Env: buildEnv(), Fset: fset, Overlay: overlay,
	}
	_ = types.Universe
	cfg.Mode = packages.LoadSyntax | packages.NeedModule
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded")
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
		if p.IllTyped {
			return nil, fmt.Errorf("%s: ill-typed", p.PkgPath)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{Repo: repo, Fset: fset, Pkgs: pkgs, byRel: map[string]*packages.Package{}, SSA: prog, ssaPk: map[*types.Package]*ssa.Package{}}
	for i, p := range pkgs {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("%s: no SSA", p.PkgPath)
		}
		P.byRel[strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")] = p
		P.ssaPk[p.Types] = spkgs[i]
	}
	P.collect()
	return P, nil
}

func (P *Program) collect() {
	all := ssautil.AllFunctions(P.SSA)
	for f := range all {
		if P.isRepoFn(f) && f.Blocks != nil {
			P.Funcs = append(P.Funcs, f)
		}
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		if P.Funcs[i].String() != P.Funcs[j].String() {
			return P.Funcs[i].String() < P.Funcs[j].String()
		}
		return P.Funcs[i].Pos() < P.Funcs[j].Pos()
	})
	// concrete named types of the repo, for resolving interface calls
	seen := map[types.Type]bool{}
	for _, p := range P.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				t := tn.Type()
				if _, isI := t.Underlying().(*types.Interface); !isI && !seen[t] {
					seen[t] = true
					P.named = append(P.named, t)
				}
			}
		}
	}
	P.impls = map[string][]*ssa.Function{}
}

func fnPkgPath(f *ssa.Function) string {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
		if f.Parent() == nil {
			break
		}
		f = f.Parent()
	}
	return ""
}

func (P *Program) isRepoFn(f *ssa.Function) bool {
	p := fnPkgPath(f)
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

// isRepoType tells whether a named type is declared in the repository.
func isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// implementations resolves an interface method to the repository's concrete methods (class hierarchy analysis).
// Wrappers promoted through embedding are resolved to the declared method.
func (P *Program) implementations(iface *types.Interface, m *types.Func) []*ssa.Function {
	key := m.FullName() + "|" + types.TypeString(iface, nil)
	if r, ok := P.impls[key]; ok {
		return r
	}
	res := []*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	for _, t := range P.named {
		if tn, ok := t.(*types.Named); ok && tn.TypeParams().Len() > 0 {
			continue
		}
		for _, tt := range []types.Type{t, types.NewPointer(t)} {
			if !types.Implements(tt, iface) {
				continue
			}
			sel := types.NewMethodSet(tt).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			obj := sel.Obj().(*types.Func)
			f := P.SSA.FuncValue(obj)
			if f != nil && f.Blocks != nil && P.isRepoFn(f) && !seen[f] {
				seen[f] = true
				res = append(res, f)
			}
		}
	}
	P.impls[key] = res
	return res
}

// lookups ------------------------------------------------------------------------------------------------------------

func (P *Program) pkg(rel string) *ssa.Package {
	p := P.byRel[rel]
	if p == nil {
		return nil
	}
	return P.ssaPk[p.Types]
}

func (P *Program) fn(rel, name string) *ssa.Function {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// method finds a method by package (relative), receiver type name and method name.
func (P *Program) method(rel, typ, name string) *ssa.Function {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	t := p.Type(typ)
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		if sel := types.NewMethodSet(tt).Lookup(p.Pkg, name); sel != nil {
			if f := P.SSA.FuncValue(sel.Obj().(*types.Func)); f != nil {
				return f
			}
		}
	}
	return nil
}

func (P *Program) typ(rel, name string) types.Type {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.Fset.Position(p)
	rel, err := filepath.Rel(P.Repo, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func shortFn(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.ReplaceAll(f.String(), modPath+"/", "")
}

func protocPath() string {
	for _, p := range []string{"/opt/vp/tools/bin/protoc", "/usr/bin/protoc", "/usr/local/bin/protoc"} {
		if _, err := os.Stat(p); err == nil {
			return p
		}
	}
	return "protoc"
}
