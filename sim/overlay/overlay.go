// Package overlay builds the 'go build -overlay' file set that turns the Go
// runtime and the code under test into a deterministic simulation:
//
//   - the runtime's scheduler, clock, select order and map iteration order are
//     taken over by zsim.go.txt (only while a simulated run is in progress);
//   - every statement of the packages under test is preceded by a yield point.
//
// Nothing in GOROOT or in the repository is modified.
package overlay

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

//go:embed zsim.go.txt
var zsim []byte

type edit struct {
	file     string // relative to GOROOT/src
	old, new string
	count    int // expected number of occurrences; -1 any > 0
}

var edits = []edit{
	// clock
	{"runtime/time_nofake.go", "\treturn nanotime1()\n", "\tif simClockOn {\n\t\treturn simNow\n\t}\n\treturn nanotime1()\n", 1},
	{"runtime/timestub.go", "&& !(linux && amd64)", "", 1},
	{"runtime/timestub.go", "\tsec, nsec = walltime()\n", "\tif simClockOn {\n\t\treturn simNow / 1e9, int32(simNow % 1e9), simNow\n\t}\n\tn := nanotime() // boot-relative is good enough outside a run\n\tsec, nsec = 1700000000+n/1e9, int32(n%1e9)\n", 1},
	{"runtime/timeasm.go", "(windows || (linux && amd64))", "windows", 1},
	{"runtime/time_linux_amd64.s", "//go:build !faketime", "//go:build never", 1},
	// scheduler
	{"runtime/proc.go", "const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false", 1},
	{"runtime/proc.go", "\tnow, pollUntil, _ := pp.timers.check(0, nil)\n", "\tnow, pollUntil, _ := pp.timers.check(0, nil)\n\tif simOn {\n\t\treturn simPick(pp), false, false\n\t}\n", 1},
	{"runtime/proc.go", "\tif preempted && sched.gcwaiting.Load() {\n\t\t// If preempted for STW", "\tif simOn {\n\t\trunqput(pp, gp, false)\n\t} else if preempted && sched.gcwaiting.Load() {\n\t\t// If preempted for STW", 1},
	{"runtime/proc.go", "\trunqput(mp.p.ptr(), gp, next)\n\twakep()\n\treleasem(mp)\n", "\tsimReady()\n\trunqput(mp.p.ptr(), gp, next)\n\twakep()\n\treleasem(mp)\n", 1},
	{"runtime/proc.go", "\tnewg.runningCleanups.Store(false)\n", "\tnewg.runningCleanups.Store(false)\n\tsimNewG(newg)\n", 1},
	{"runtime/runtime2.go", "\tgcAssistBytes int64\n\n\t// valgrindStackID", "\tgcAssistBytes int64\n\n\tsimID   uint32\n\tsimPrio int64\n\tsimStall uint64\n\n\t// valgrindStackID", 1},
	// network
	{"net/dial.go", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "// SimListen, if set, replaces the network.\nvar SimListen func(network, address string) (Listener, error)\n\nfunc (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n\tif f := SimListen; f != nil {\n\t\treturn f(network, address)\n\t}\n", 1},
	// randomness
	{"runtime/select.go", "\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := simCheaprandn(uint32(norder + 1))\n", 1},
	{"runtime/rand.go", "\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i*7 + 1)\n\t}\n\tglobalRand.state.Init(*seed)\n", 1},
	{"runtime/rand.go", "func maps_rand() uint64 {\n\treturn rand()\n", "func maps_rand() uint64 {\n\tif simOn {\n\t\treturn 0x9e3779b97f4a7c15\n\t}\n\treturn rand()\n", 1},
	{"runtime/rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n\tif simOn || simSeeded {\n\t\treturn simSplitN(&simRand)\n\t}\n", 1},
	{"internal/runtime/maps/runtime.go", "//go:linkname rand\nfunc rand() uint64\n", "//go:linkname rand\nfunc rand() uint64\n\n//go:linkname iterrand\nfunc iterrand() uint64\n\n//go:linkname simyield\nfunc simyield()\n", 1},
	{"internal/runtime/maps/table.go", "\tit.entryOffset = rand()\n\tit.dirOffset = rand()\n", "\tit.entryOffset = iterrand()\n\tit.dirOffset = iterrand()\n", 1},
	{"internal/runtime/maps/map.go", "m.writing ^= 1 // toggle, see comment on writing\n", "m.writing ^= 1 // toggle, see comment on writing\n\tsimyield()\n", 3},
	{"internal/runtime/maps/runtime.go", "m.writing ^= 1 // toggle, see comment on writing\n", "m.writing ^= 1 // toggle, see comment on writing\n\tsimyield()\n", 1},
	{"internal/runtime/maps/runtime_fast32.go", "m.writing ^= 1 // toggle, see comment on writing\n", "m.writing ^= 1 // toggle, see comment on writing\n\tsimyield()\n", 2},
	{"internal/runtime/maps/runtime_fast64.go", "m.writing ^= 1 // toggle, see comment on writing\n", "m.writing ^= 1 // toggle, see comment on writing\n\tsimyield()\n", -1},
	{"internal/runtime/maps/runtime_faststr.go", "m.writing ^= 1 // toggle, see comment on writing\n", "m.writing ^= 1 // toggle, see comment on writing\n\tsimyield()\n", 1},
}

// Generate writes the overlay under dir and returns the path of the overlay
// JSON file.  roots are the directories of the code under test.
func Generate(goroot, dir string, roots []string, exclude func(string) bool) (string, int, error) {
	repl := map[string]string{}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", 0, err
	}
	content := map[string]string{}
	opt := map[string]int{}
	for _, e := range edits {
		p := filepath.Join(goroot, "src", e.file)
		s, ok := content[p]
		if !ok {
			b, err := os.ReadFile(p)
			if err != nil {
				return "", 0, err
			}
			s = string(b)
		}
		n := strings.Count(s, e.old)
		if e.count > 0 && n != e.count {
			return "", 0, fmt.Errorf("overlay: %s: expected %d occurrences of %q, found %d", e.file, e.count, e.old, n)
		}
		opt[e.file] += n
		content[p] = strings.ReplaceAll(s, e.old, e.new)
	}
	for f, n := range opt {
		if n == 0 {
			return "", 0, fmt.Errorf("overlay: no edit applied to %s", f)
		}
	}
	i := 0
	put := func(orig string, data []byte) error {
		i++
		out := filepath.Join(dir, fmt.Sprintf("%03d_%s", i, filepath.Base(orig)))
		repl[orig] = out
		// keep mtimes stable: rewrite only when different
		if old, err := os.ReadFile(out); err == nil && string(old) == string(data) {
			return nil
		}
		return os.WriteFile(out, data, 0o644)
	}
	var keys []string
	for p := range content {
		keys = append(keys, p)
	}
	sort.Strings(keys)
	for _, p := range keys {
		if err := put(p, []byte(content[p])); err != nil {
			return "", 0, err
		}
	}
	if err := put(filepath.Join(goroot, "src/runtime/zsim.go"), zsim); err != nil {
		return "", 0, err
	}
	points := 0
	for _, root := range roots {
		err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() {
				if strings.HasPrefix(fi.Name(), ".") || fi.Name() == "testdata" || fi.Name() == "examples" || (exclude != nil && exclude(p)) {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			out, n, err := inject(p, src)
			if err != nil {
				return err
			}
			points += n
			if n == 0 {
				return nil
			}
			return put(p, out)
		})
		if err != nil {
			return "", 0, err
		}
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	of := filepath.Join(dir, "overlay.json")
	return of, points, os.WriteFile(of, js, 0o644)
}

// inject places a yield point in front of every statement.
func inject(name string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	var offs []int
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			offs = append(offs, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.SwitchStmt:
			for _, c := range b.Body.List {
				stmts(c.(*ast.CaseClause).Body)
			}
		case *ast.BlockStmt:
			if len(b.List) > 0 {
				switch b.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(b.List)
		case *ast.CommClause:
			stmts(b.Body)
		case *ast.TypeSwitchStmt:
			for _, c := range b.Body.List {
				stmts(c.(*ast.CaseClause).Body)
			}
		}
		return true
	})
	if len(offs) == 0 {
		return src, 0, nil
	}
	sort.Ints(offs)
	var sb strings.Builder
	nameEnd := fset.Position(f.Name.End()).Offset
	sb.Write(src[:nameEnd])
	sb.WriteString("; import zsimrt \"runtime\"")
	last := nameEnd
	n := 0
	prev := -1
	for _, o := range offs {
		if o == prev {
			continue
		}
		prev = o
		sb.Write(src[last:o])
		sb.WriteString("zsimrt.SimYield();")
		last = o
		n++
	}
	sb.Write(src[last:])
	return []byte(sb.String()), n, nil
}

// CopyCore copies the core module (which may not be overlaid where it is) to
// dst; there log level ERROR logs nothing (the volume of log output would
// dominate the cost of a run). Nothing else is changed.
func CopyCore(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && rel != "." || fi.Name() == "examples" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if rel != "go.mod" && rel != "go.sum" && (!strings.HasSuffix(rel, ".go") || strings.HasSuffix(rel, "_test.go")) {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if rel == filepath.Join("support", "log", "zap.go") {
			o := "\tcase ErrorLevel:\n\t\treturn zapcore.ErrorLevel\n"
			if strings.Count(string(b), o) != 1 {
				return fmt.Errorf("overlay: logger of the core module not recognised")
			}
			b = []byte(strings.Replace(string(b), o, "\tcase ErrorLevel:\n\t\treturn zapcore.FatalLevel\n", 1))
		}
		out := filepath.Join(dst, rel)
		if old, err := os.ReadFile(out); err == nil && string(old) == string(b) {
			return nil
		}
		return os.WriteFile(out, b, 0o644)
	})
}
