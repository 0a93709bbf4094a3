// inst makes the preemptible build of the library: a copy of each source file of the package with a yield point before
// every statement, and an overlay for "go build" that puts the copies in place. The repository itself is not touched.
//
//	inst REPO OUT
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `package cp

// VLeft is the number of statements until the scheduler is asked.
var VLeft = 1 << 62

// VYield is the scheduler.
var VYield func()

// VHot is the function in which the scheduler is asked at every statement.
var VHot = -1

func vyield(fn int) {
	VLeft--
	if VLeft < 0 || fn == VHot {
		if VYield != nil {
			VYield()
		} else {
			VLeft, VHot = 1<<62, -1
		}
	}
}

// VWait is the scheduler when a lock is not free: another goroutine has to run.
var VWait func()

func vwait() {
	if VWait == nil {
		panic("a lock waits for itself")
	}
	VWait()
}

// vMutex, vRWMutex and vOnce stand for the types of package sync. Only one goroutine runs at a time.
type vMutex struct{ held bool }

func (m *vMutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *vMutex) Lock() {
	for !m.TryLock() {
		vwait()
	}
}

func (m *vMutex) Unlock() {
	if !m.held {
		panic("unlock of unlocked mutex")
	}
	m.held = false
}

type vRWMutex struct {
	w vMutex
	r int
}

func (m *vRWMutex) TryLock() bool { return m.r == 0 && m.w.TryLock() }

func (m *vRWMutex) Lock() {
	for !m.TryLock() {
		vwait()
	}
}

func (m *vRWMutex) Unlock() { m.w.Unlock() }

func (m *vRWMutex) TryRLock() bool {
	if m.w.held {
		return false
	}
	m.r++
	return true
}

func (m *vRWMutex) RLock() {
	for !m.TryRLock() {
		vwait()
	}
}

func (m *vRWMutex) RUnlock() {
	if m.r == 0 {
		panic("runlock of unlocked mutex")
	}
	m.r--
}

type vOnce struct {
	m    vMutex
	done bool
}

func (o *vOnce) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// VFuncs is the number of functions.
const VFuncs = `

// locks are the types of package sync that have a stand-in; with others, or with goroutines of its own, the library is
// not made preemptible.
var locks = map[string]string{"Mutex": "vMutex", "RWMutex": "vRWMutex", "Once": "vOnce", "Pool": "", "Map": "", "Locker": ""}

func main() {
	if len(os.Args) != 3 {
		fmt.Println("usage: inst REPO OUT")
		os.Exit(2)
	}
	repo, _ := filepath.Abs(os.Args[1])
	out, _ := filepath.Abs(os.Args[2])
	if err := run(repo, out); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}

func run(repo, out string) error {
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	files, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	overlay := map[string]string{}
	funcs := 0
	put := func(name, src string) error {
		p := filepath.Join(out, name)
		overlay[filepath.Join(repo, name)] = p
		if b, err := os.ReadFile(p); err == nil && string(b) == src {
			return nil
		}
		return os.WriteFile(p, []byte(src), 0o644)
	}
	type source struct {
		name string
		src  []byte
		fs   *token.FileSet
		file *ast.File
	}
	var pkg []source
	vars := map[string]bool{} // variables of the package, which all spaces share
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			return err
		}
		if file.Name.Name != "cp" {
			continue
		}
		pkg = append(pkg, source{filepath.Base(f), src, fs, file})
		for _, d := range file.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, x := range g.Specs {
					for _, n := range x.(*ast.ValueSpec).Names {
						vars[n.Name] = true
					}
				}
			}
		}
	}
	var shared []string
	for _, p := range pkg {
		src, err := instrument(p.fs, p.file, p.src, vars, &funcs, &shared)
		if err != nil {
			return err
		}
		if err := put(p.name, src); err != nil {
			return err
		}
	}
	tail := fmt.Sprintln(funcs) + "\n// VShared are the functions that mention variables of the package.\nvar VShared = []int{" + strings.Join(shared, ", ") + "}\n"
	if err := put("zz_yield_preempt.go", hook+tail); err != nil {
		return err
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	return os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644)
}

// instrument puts a call before every statement of every function body. Statements keep their lines.
func instrument(fs *token.FileSet, file *ast.File, src []byte, vars map[string]bool, funcs *int, shared *[]string) (string, error) {
	type point struct {
		at, end int
		text    string
	}
	var points []point
	var err error
	sync := "" // the name of package sync in this file
	used := false
	for _, im := range file.Imports {
		if im.Path.Value == `"sync"` {
			sync = "sync"
			if im.Name != nil {
				sync = im.Name.Name
			}
		}
	}
	refuse := func(n ast.Node, what string) {
		err = fmt.Errorf("%v: %s: no preemptible build", fs.Position(n.Pos()), what)
	}
	for _, d := range file.Decls {
		fn := *funcs
		*funcs++
		// the clauses of a switch are no statements of a block
		skip := map[*ast.BlockStmt]bool{}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				at := fs.Position(s.Pos()).Offset
				points = append(points, point{at, at, fmt.Sprintf("vyield(%d); ", fn)})
			}
		}
		uses := false
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.Ident:
				uses = uses || vars[x.Name]
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok && sync != "" && id.Name == sync {
					if to, ok := locks[x.Sel.Name]; !ok {
						refuse(x, sync+"."+x.Sel.Name)
					} else if to != "" {
						points = append(points, point{fs.Position(x.Pos()).Offset, fs.Position(x.End()).Offset, to})
						used = true
					}
				}
			case *ast.GoStmt, *ast.SelectStmt, *ast.ChanType:
				refuse(x, "goroutines of its own")
			case *ast.SwitchStmt:
				skip[x.Body] = true
			case *ast.TypeSwitchStmt:
				skip[x.Body] = true
			case *ast.BlockStmt:
				if !skip[x] {
					list(x.List)
				}
			case *ast.CaseClause:
				list(x.Body)
			}
			return true
		})
		if _, ok := d.(*ast.FuncDecl); ok && uses {
			*shared = append(*shared, fmt.Sprint(fn))
		}
	}
	sort.SliceStable(points, func(i, j int) bool { return points[i].at < points[j].at })
	var b strings.Builder
	last := 0
	for _, p := range points {
		b.Write(src[last:p.at])
		b.WriteString(p.text)
		last = p.end
	}
	b.Write(src[last:])
	if used {
		fmt.Fprintf(&b, "\nvar _ %s.Mutex\n", sync)
	}
	return b.String(), err
}
