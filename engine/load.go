package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// overlayFiles maps harness sources in /verif into the module under test.
func overlayFiles(repo, hdir string) (map[string]string, error) {
	m := map[string]string{}
	for _, d := range []struct{ src, dst string }{{"sym", "zz_verif/sym"}, {"h", "zz_verif/h"}, {"hmain", ""}} {
		fs, err := filepath.Glob(filepath.Join(hdir, d.src, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			m[filepath.Join(repo, d.dst, filepath.Base(f))] = f
		}
	}
	return m, nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "HOME":
			continue
		}
		env = append(env, e)
	}
	return append(env, "HOME=/root", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off")
}

func loadProgram(repo, hdir string) (*explorer, error) {
	ofs, err := overlayFiles(repo, hdir)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for dst, src := range ofs {
		if strings.HasSuffix(dst, "_test.go") {
			continue
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo, Env: goEnv(), Overlay: ov,
	}
	initial, err := packages.Load(cfg, modPath+"/zz_verif/h", modPath)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	ex := &explorer{prog: prog, pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, overrides: map[string]intrinsic{}}
	for _, p := range prog.AllPackages() {
		ex.pkgs[p.Pkg.Path()] = p
		if p.Pkg.Path() == "encoding/json" {
			numberTextT = p.Pkg.Scope().Lookup("Number").Type()
		}
	}
	symp := ex.pkgs[modPath+"/zz_verif/sym"]
	if symp == nil {
		return nil, fmt.Errorf("sym package not loaded")
	}
	ex.rtErrType = symp.Pkg.Scope().Lookup("RuntimeError").(*types.TypeName).Type()
	return ex, nil
}

func short(f string) string {
	f = strings.TrimPrefix(f, "/repo/")
	if i := strings.Index(f, "/pkg/mod/"); i >= 0 {
		f = f[i+9:]
	}
	return f
}

var deniedPrefixes = []string{"reflect", "runtime", "syscall", "os", "net", "encoding/json", "fmt", "regexp", "internal/abi", "internal/reflectlite",
	"internal/poll", "internal/syscall", "internal/race", "sync", "time", "log", "io/fs"}

// library functions that are safe to interpret inside otherwise denied packages
var allowedFns = map[string]bool{
	"(time.Duration).String": true, "(time.Duration).format": true, "time.fmtFrac": true, "time.fmtInt": true,
	"(time.Duration).Seconds": true, "(time.Duration).Milliseconds": true, "(time.Duration).Nanoseconds": true,
	"(*sync.Once).Do": true, "io/ioutil.ReadAll": true, "(*fmt.wrapError).Unwrap": true, "(*fmt.wrapError).Error": true,
	"(*os.fileStat).Size": true, "(*os.fileStat).Mode": true, "(*os.fileStat).Name": true, "(*os.fileStat).IsDir": true, "(os.FileMode).IsDir": true,
	"(io/fs.FileMode).IsDir": true, "(io/fs.FileMode).IsRegular": true, "(io/fs.FileMode).Perm": true, "(io/fs.FileMode).Type": true,
}

func deniedPkg(path string) bool {
	if path == "sync/atomic" {
		return false // its types are Go code over the functions of lib.go
	}
	for _, d := range deniedPrefixes {
		if path == d || strings.HasPrefix(path, d+"/") {
			return true
		}
	}
	return false
}

func deniedStd(fn *ssa.Function) string {
	pkg := fn.Pkg
	if pkg == nil {
		if o := fn.Origin(); o != nil {
			pkg = o.Pkg
		}
	}
	if pkg == nil {
		return ""
	}
	path := pkg.Pkg.Path()
	if path == "sync" && strings.HasPrefix(fn.Name(), "OnceFunc") || strings.HasPrefix(fn.Name(), "OnceValue") {
		return ""
	}
	if deniedPkg(path) && !allowedFns[fn.String()] {
		return "call of library function " + fn.String()
	}
	return ""
}
