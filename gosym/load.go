package main

// Loading of the code under test: /repo's working tree plus the harness packages, through an overlay.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	modPath   = "github.com/google/licensecheck"
	verifPath = modPath + "/internal/verif"
)

type Loader struct {
	prog     *ssa.Program
	mu       sync.Mutex
	thorough bool
	dumpDir  string
	repo     string
	verif    string
	overlay  map[string]string // path under repo -> real file
	pkgs     map[string]*ssa.Package
	failed   map[string]string // harness packages that do not compile
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=1", "GONOSUMDB=*", "GOSUMDB=off")
}

// harnessFiles maps overlay paths to files under /verif/harness.
func harnessFiles(repo, verif string) map[string]string {
	m := map[string]string{}
	root := filepath.Join(verif, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			if rel == "data.gen.go" {
				m[filepath.Join(repo, "data.gen.go")] = p
			} else {
				m[filepath.Join(repo, "internal/verif", rel)] = p
			}
		}
		return nil
	})
	return m
}

var reHarness = regexp.MustCompile(`^(C\d\d)_\w+$`)

type Harness struct {
	Name  string // pkg.Func
	Pkg   string
	Fn    *ssa.Function
	NFn   *ssa.Function
	Setup *ssa.Function
}

func load(repo, verif string, hpkgs []string, thorough bool) (*Loader, error) {
	ld := &Loader{repo: repo, verif: verif, thorough: thorough, pkgs: map[string]*ssa.Package{}, failed: map[string]string{}}
	ld.overlay = harnessFiles(repo, verif)
	try := func() ([]*packages.Package, error) {
		ov := map[string][]byte{}
		for p, f := range ld.overlay {
			// The interpreter does not need the bodies of sym; the native file still type-checks.
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			ov[p] = b
		}
		var pats []string
		for _, h := range hpkgs {
			pats = append(pats, verifPath+"/"+h)
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: goEnv()}
		return packages.Load(cfg, pats...)
	}
	pkgs, err := try()
	if err != nil {
		return nil, err
	}
	bad := func() string {
		s := ""
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				if len(s) < 4000 {
					s += e.Error() + "\n"
				}
			}
		})
		return s
	}
	if msg := bad(); msg != "" {
		// maybe the stand-in for data.gen.go is at fault
		delete(ld.overlay, filepath.Join(repo, "data.gen.go"))
		if p2, err := try(); err == nil {
			pkgs = p2
			if bad() != "" {
				return nil, fmt.Errorf("%s", msg)
			}
			fmt.Fprintln(os.Stderr, "note: using the real data.gen.go:", msg)
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	ld.prog = prog
	for _, p := range pkgs {
		ld.pkgs[filepath.Base(p.PkgPath)] = prog.Package(p.Types)
	}
	return ld, nil
}

// harnesses lists the harnesses of a property.
func (ld *Loader) harnesses(prop string) []*Harness {
	var hs []*Harness
	for name, p := range ld.pkgs {
		if p == nil {
			continue
		}
		for fn, m := range p.Members {
			f, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			mm := reHarness.FindStringSubmatch(fn)
			if mm == nil || (prop != "" && mm[1] != prop) || strings.HasSuffix(fn, "_N") || strings.HasSuffix(fn, "_Setup") {
				continue
			}
			h := &Harness{Name: name + "." + fn, Pkg: name, Fn: f}
			h.NFn = p.Func(fn + "_N")
			h.Setup = p.Func(fn + "_Setup")
			if f.Signature.Params().Len() != 1 || !types.Identical(f.Signature.Params().At(0).Type(), types.Typ[types.Int]) {
				continue
			}
			hs = append(hs, h)
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	return hs
}

var stdInit = map[string]bool{
	"io": true, "unicode": true, "unicode/utf8": true, "strconv": true, "strings": true, "bytes": true,
	"regexp": true, "regexp/syntax": true, "sort": true, "slices": true, "maps": true, "cmp": true, "iter": true,
	"math": true, "math/bits": true, "sync/atomic": true, "encoding/binary": true, "internal/stringslite": true,
	"path": true, "math/rand": false, "container/heap": true, "container/list": true, "unicode/utf16": true, "internal/bytealg": false,
	"internal/itoa": true, "html": true, "text/scanner": true, "hash/fnv": true, "hash": true,
}

func (in *Interp) initAllowed(pkg *ssa.Package) bool {
	p := pkg.Pkg.Path()
	return strings.HasPrefix(p, modPath) || stdInit[p]
}

// ---- native build ----

// buildNative builds a binary that runs the harnesses for real. Harness packages are those loaded.
func (ld *Loader) buildNative(dir string, hs []*Harness, race bool) (string, error) {
	ov := map[string]string{}
	for p, f := range ld.overlay {
		ov[p] = f
	}
	src := "package main\n\nimport (\n\t\"" + verifPath + "/sym\"\n"
	seen := map[string]bool{}
	for _, h := range hs {
		if !seen[h.Pkg] {
			seen[h.Pkg] = true
			src += "\t\"" + verifPath + "/" + h.Pkg + "\"\n"
		}
	}
	src += ")\n\nfunc main() {\n\tsym.Main([]sym.H{\n"
	for _, h := range hs {
		setup := "nil"
		if h.Setup != nil {
			setup = h.Pkg + "." + h.Setup.Name()
		}
		src += fmt.Sprintf("\t\t{%q, %s.%s, %s},\n", h.Name, h.Pkg, h.Fn.Name(), setup)
	}
	src += "\t})\n}\n"
	mainFile := filepath.Join(dir, "zmain.go")
	if err := os.WriteFile(mainFile, []byte(src), 0o666); err != nil {
		return "", err
	}
	ov[filepath.Join(ld.repo, "internal/verif/zmain/main.go")] = mainFile
	js, _ := json.Marshal(map[string]any{"Replace": ov})
	ovFile := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovFile, js, 0o666); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "native")
	args := []string{"build", "-buildvcs=false", "-overlay", ovFile, "-o", bin}
	if race {
		bin += "-race"
		args = []string{"build", "-race", "-buildvcs=false", "-overlay", ovFile, "-o", bin}
	}
	args = append(args, verifPath+"/zmain")
	cmd := command("go", args...)
	cmd.Dir = ld.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go build: %v\n%s", err, out)
	}
	return bin, nil
}
