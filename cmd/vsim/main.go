// Command vsim builds the instrumented simulation of the module in /repo.
//
//	vsim build -verif /verif -repo /repo -work DIR -out BIN
//
// Exit status 0: BIN was built. Anything else is an error of the check.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var repoDir = "/repo"

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vsim: "+f+"\n", a...)
	os.Exit(2)
}

type listPkg struct {
	Dir, ImportPath, Name, Export string
	GoFiles                       []string
	Standard                      bool
	Module                        *struct{ Path string }
	ImportMap                     map[string]string
}

// BuildInfo is recorded in the evidence.
type BuildInfo struct {
	Packages       []string `json:"packages"`
	Sites          int      `json:"sites"`
	Uninstrumented []string `json:"uninstrumented"`
	Rounds         int      `json:"build_rounds"`
	SourceHash     string   `json:"source_hash"`
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "build" {
		die("usage: vsim build ...")
	}
	fs := flag.NewFlagSet("build", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	work := fs.String("work", "", "")
	out := fs.String("out", "", "")
	runTests := fs.Bool("selftest", false, "run the repository's tests on the instrumented code")
	fs.Parse(os.Args[2:])
	repoDir = *repo
	if *work == "" || *out == "" {
		die("need -work and -out")
	}
	os.RemoveAll(filepath.Join(*work, "src"))
	if err := os.MkdirAll(filepath.Join(*work, "src"), 0755); err != nil {
		die("%v", err)
	}
	gomod := filepath.Join(*verif, "mod", "go.mod")
	base := map[string]string{
		filepath.Join(repoDir, "go.mod"): gomod,
	}
	for _, t := range []string{"parser_test.go", "grammer_test.go"} {
		base[filepath.Join(repoDir, t)] = ""
	}
	ov0 := filepath.Join(*work, "overlay0.json")
	writeJSON(ov0, map[string]interface{}{"Replace": base})
	env := func(ov string) []string {
		e := os.Environ()
		e = append(e, "GOFLAGS=-overlay="+ov+" -modfile="+gomod+" -mod=readonly", "GO111MODULE=on", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=0")
		return e
	}

	// packages of the module and their dependencies
	cmd := exec.Command("go", "list", "-e=false", "-deps", "-export", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard,Module,ImportMap", "./...")
	cmd.Dir = repoDir
	cmd.Env = env(ov0)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		die("the repository does not build: %v\n%s", err, se.String())
	}
	exports := map[string]string{}
	var mod []listPkg
	dec := json.NewDecoder(&so)
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && p.Module != nil && p.Module.Path == modPath {
			mod = append(mod, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})

	var srcs []PkgSrc
	hash := sha256.New()
	for _, p := range mod {
		s := PkgSrc{Path: p.ImportPath, Dir: p.Dir}
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			s.Files = append(s.Files, full)
			b, _ := os.ReadFile(full)
			fmt.Fprintf(hash, "%s %d\n", rel(full), len(b))
			hash.Write(b)
		}
		if p.Name == "main" {
			if p.ImportPath != modPath+"/examples/scalc/scalc" {
				continue
			}
			s.IsMain, s.OutPkg = true, "scalcmain"
		}
		srcs = append(srcs, s)
	}
	bi := BuildInfo{SourceHash: fmt.Sprintf("%x", hash.Sum(nil))[:16]}
	for _, s := range srcs {
		bi.Packages = append(bi.Packages, s.Path)
	}

	skip := Skip{}
	for round := 1; ; round++ {
		bi.Rounds = round
		sites := &Sites{List: []Site{{"", 0, "", "none"}}}
		ov := map[string]string{}
		for k, v := range base {
			ov[k] = v
		}
		gen := map[string]genFile{} // generated path -> origin
		for _, s := range srcs {
			o, err := instrument(s, imp, sites, skip)
			if err != nil {
				die("instrument %s: %v", s.Path, err)
			}
			dir := filepath.Join(*work, "src", strings.TrimPrefix(strings.TrimPrefix(s.Path, modPath), "/"))
			os.MkdirAll(dir, 0755)
			for f, b := range o.Files {
				g := filepath.Join(dir, filepath.Base(f))
				writeFile(g, b)
				gen[g] = genFile{rel(f), o.DeclLines[f], o.DeclIdx[f]}
				if s.IsMain {
					ov[filepath.Join(repoDir, "zzsim", "scalcmain", filepath.Base(f))] = g
				} else {
					ov[f] = g
				}
			}
			ex := filepath.Join(dir, "zz_sim_reset.go")
			writeFile(ex, o.Extra)
			if s.IsMain {
				ov[filepath.Join(repoDir, "zzsim", "scalcmain", "zz_sim_reset.go")] = ex
			} else {
				ov[filepath.Join(s.Dir, "zz_sim_reset.go")] = ex
			}
		}
		for _, d := range []struct{ from, to string }{{"simrt/zzsim", "zzsim"}, {"harness", "zzsim/harness"}} {
			root := filepath.Join(*verif, d.from)
			filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
				if err == nil && !fi.IsDir() && strings.HasSuffix(path, ".go") {
					r, _ := filepath.Rel(root, path)
					ov[filepath.Join(repoDir, d.to, r)] = path
				}
				return nil
			})
		}
		ov1 := filepath.Join(*work, "overlay.json")
		writeJSON(ov1, map[string]interface{}{"Replace": ov})
		writeJSON(filepath.Join(*work, "sites.json"), sites.List)
		bi.Sites = len(sites.List)
		bi.Uninstrumented = sortedKeys(skip)

		c := exec.Command("go", "build", "-gcflags=-e", "-o", *out, "./zzsim/harness")
		c.Dir = repoDir
		c.Env = env(ov1)
		b, err := c.CombinedOutput()
		if err == nil {
			writeJSON(filepath.Join(*work, "build.json"), bi)
			if *runTests {
				t := exec.Command("go", "test", "-vet=off", "./...")
				t.Dir = repoDir
				t.Env = env(ov1)
				t.Stdout, t.Stderr = os.Stdout, os.Stderr
				if err := t.Run(); err != nil {
					die("tests on instrumented code: %v", err)
				}
			}
			return
		}
		if round >= 8 {
			die("cannot build the instrumented code:\n%s", b)
		}
		if !blame(string(b), gen, skip, round, *work) {
			die("build of the simulation failed:\n%s", b)
		}
		fmt.Fprintf(os.Stderr, "vsim: round %d, left as written: %v\n%s\n", round, sortedKeys(skip), firstLines(string(b), 12))
	}
}

type genFile struct {
	rel   string
	lines []int
	idx   []int
}

var errRE = regexp.MustCompile(`(?m)^([^\s:]+\.go):(\d+)(?::\d+)?: `)

// blame marks the declarations with compile errors to be left as written.
func blame(out string, gen map[string]genFile, skip Skip, round int, work string) bool {
	changed := false
	before := Skip{}
	for k := range skip {
		before[k] = true
	}
	mark := func(k string) {
		if !skip[k] {
			skip[k] = true
			changed = true
		}
	}
	for _, m := range errRE.FindAllStringSubmatch(out, -1) {
		f := m[1]
		var g genFile
		ok := false
		for path, x := range gen {
			if path == f || strings.HasSuffix(path, "/"+strings.TrimLeft(f, "./")) || sameVirtual(f, x.rel) {
				g, ok = x, true
				break
			}
		}
		if !ok {
			continue
		}
		line, _ := strconv.Atoi(m[2])
		i := sort.Search(len(g.lines), func(i int) bool { return g.lines[i] > line }) - 1
		if i < 0 || g.idx[i] < 0 || round >= 5 {
			mark(g.rel)
			continue
		}
		k := fmt.Sprintf("%s#%d", g.rel, g.idx[i])
		if before[k] {
			mark(g.rel)
		} else {
			mark(k)
		}
	}
	return changed
}

func sameVirtual(f, rel string) bool {
	f = strings.TrimPrefix(f, "./")
	if f == rel || strings.HasSuffix(f, "/"+rel) {
		return true
	}
	return strings.HasPrefix(f, "zzsim/scalcmain/") && strings.HasPrefix(rel, "examples/scalc/scalc/") && filepath.Base(f) == filepath.Base(rel)
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func writeFile(p string, b []byte) {
	if err := os.WriteFile(p, b, 0644); err != nil {
		die("%v", err)
	}
}

func writeJSON(p string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		die("%v", err)
	}
	writeFile(p, b)
}

var _ types.Type
