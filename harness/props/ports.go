package props

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"averif/eng"
)

// ---- C19: the library is whole on every machine Go knows -------------------

type portCase struct {
	OS   string   `json:"os"`
	Arch string   `json:"arch"`
	Tags []string `json:"tags"`
}

const repoPath = "github.com/fadhilkurnia/shamir"

var libPackages = []string{"shamir", "krawczyk", "csprng", "randomizer", "galois", "utils", "worker"}

// repoDir is where the code under test was built from.
func repoDir() (string, error) {
	info, ok := debug.ReadBuildInfo()
	if ok {
		for _, d := range info.Deps {
			if d.Path == repoPath && d.Replace != nil {
				return d.Replace.Path, nil
			}
		}
	}
	return "", &eng.HarnessError{Err: fmt.Errorf("no build information")}
}

// portChecker type-checks the packages of the library with the files that a
// port uses; other packages are left open, and what is said of them believed.
type portChecker struct {
	dir  string
	ctx  build.Context
	done map[string]*types.Package
	errs []string
}

func (p *portChecker) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if path != repoPath && !strings.HasPrefix(path, repoPath+"/") {
		return nil, fmt.Errorf("left open")
	}
	if pkg, ok := p.done[path]; ok {
		if pkg == nil {
			return nil, fmt.Errorf("left open")
		}
		return pkg, nil
	}
	p.done[path] = nil
	dir := filepath.Join(p.dir, strings.TrimPrefix(strings.TrimPrefix(path, repoPath), "/"))
	bp, err := p.ctx.ImportDir(dir, 0)
	if err != nil {
		p.errs = append(p.errs, err.Error())
		return nil, err
	}
	fset := token.NewFileSet()
	var files []*ast.File
	asPackage := map[token.Pos]bool{} // names before a dot
	for _, name := range bp.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(dir, name), nil, parser.SkipObjectResolution)
		if err != nil {
			p.errs = append(p.errs, err.Error())
			return nil, err
		}
		files = append(files, f)
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok {
					asPackage[id.Pos()] = true
				}
			}
			return true
		})
		for _, d := range f.Decls {
			if fn, ok := d.(*ast.FuncDecl); ok && fn.Body == nil && len(bp.SFiles) == 0 && !linknamed(f, fn.Name.Name) {
				p.errs = append(p.errs, fmt.Sprintf("%s: func %s has no body, and no assembly file is used", fset.Position(fn.Pos()), fn.Name.Name))
			}
		}
	}
	conf := types.Config{Importer: p, Sizes: types.SizesFor("gc", p.ctx.GOARCH), FakeImportC: true,
		Error: func(err error) {
			te, ok := err.(types.Error)
			if ok && (strings.Contains(te.Msg, "could not import") || te.Soft ||
				asPackage[te.Pos] && strings.HasPrefix(te.Msg, "undefined: ") && !strings.Contains(te.Msg, ".")) { // a package that is not named like its path
				return
			}
			p.errs = append(p.errs, err.Error())
		}}
	pkg, _ := conf.Check(path, fset, files, nil)
	p.done[path] = pkg
	return pkg, nil
}

func linknamed(f *ast.File, name string) bool {
	for _, g := range f.Comments {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:linkname "+name) {
				return true
			}
		}
	}
	return false
}

func runPort(o *eng.Obs, c portCase) error {
	dir, err := repoDir()
	if err != nil {
		return err
	}
	if _, err := os.Stat(filepath.Join(dir, "go.mod")); err != nil {
		return &eng.HarnessError{Err: err}
	}
	p := &portChecker{dir: dir, ctx: build.Default, done: map[string]*types.Package{}}
	p.ctx.GOOS, p.ctx.GOARCH, p.ctx.BuildTags, p.ctx.CgoEnabled = c.OS, c.Arch, c.Tags, false
	p.ctx.ToolTags = nil
	n := 0
	for _, name := range libPackages {
		if _, err := os.Stat(filepath.Join(dir, name)); err != nil {
			continue
		}
		n++
		p.Import(repoPath + "/" + name)
	}
	if n == 0 {
		return &eng.HarnessError{Err: fmt.Errorf("no packages in %s", dir)}
	}
	if len(p.errs) > 0 {
		return fmt.Errorf("does not compile for %s/%s %v: %s", c.OS, c.Arch, c.Tags, strings.Join(p.errs[:min(len(p.errs), 4)], "; "))
	}
	o.NonTrivial()
	o.Class("%s", c.Arch)
	return nil
}

// What go tool dist list prints.
const ports = `
aix/ppc64 android/386 android/amd64 android/arm android/arm64 darwin/amd64 darwin/arm64
dragonfly/amd64 freebsd/386 freebsd/amd64 freebsd/arm freebsd/arm64 illumos/amd64 ios/amd64
ios/arm64 js/wasm linux/386 linux/amd64 linux/arm linux/arm64 linux/loong64 linux/mips linux/mips64
linux/mips64le linux/mipsle linux/ppc64 linux/ppc64le linux/riscv64 linux/s390x netbsd/386
netbsd/amd64 netbsd/arm netbsd/arm64 openbsd/386 openbsd/amd64 openbsd/arm openbsd/arm64
openbsd/ppc64 openbsd/riscv64 plan9/386 plan9/amd64 plan9/arm solaris/amd64 wasip1/wasm windows/386
windows/amd64 windows/arm64
`

func init() {
	eng.AddEnum(eng.Sub{Prop: "C19", Name: "ports", Configs: []string{"native"}, Shards: 8,
		Rule: "the library's packages are type-checked with the files that each operating system and architecture of Go selects, with and without the noasm tag (other packages left open): every function used is there; every case counts"},
		func(tier string) []portCase {
			var r []portCase
			for _, port := range strings.Fields(ports) {
				os, arch, _ := strings.Cut(port, "/")
				r = append(r, portCase{os, arch, nil}, portCase{os, arch, []string{"noasm"}})
			}
			return r
		}, runPort)
}
