package checks

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
)

// c19copy writes a copy of the library in which every statement is preceded by a scheduling point and package sync is replaced. It returns an error when the
// code uses something the scheduler does not control.
func c19copy(src, dst string) error {
	pkg, err := build.ImportDir(src, 0)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(dst, 0755); err != nil {
		return err
	}
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(src, n))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dst, n), b, 0644); err != nil {
			return err
		}
	}
	for _, n := range pkg.EmbedPatterns {
		return fmt.Errorf("embedded files: %s", n)
	}
	vars := []string{}
	for _, n := range pkg.GoFiles {
		b, err := os.ReadFile(filepath.Join(src, n))
		if err != nil {
			return err
		}
		out, vs, err := c19file(n, b)
		if err != nil {
			return err
		}
		vars = append(vars, vs...)
		if err := os.WriteFile(filepath.Join(dst, n), out, 0644); err != nil {
			return err
		}
	}
	sort.Strings(vars)
	w := &bytes.Buffer{}
	fmt.Fprintf(w, "package %s\n\n// VGlobals returns the package variables.\nfunc VGlobals() (names []string, ptrs []any) {\n", pkg.Name)
	for _, v := range vars {
		fmt.Fprintf(w, "\tnames, ptrs = append(names, %q), append(ptrs, &%s)\n", v, v)
	}
	fmt.Fprintf(w, "\treturn\n}\n")
	return os.WriteFile(filepath.Join(dst, "zz_vglobals.go"), w.Bytes(), 0644)
}

type c19ins struct {
	off, end int
	s        string
}

func c19file(name string, b []byte) ([]byte, []string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, b, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	var ins []c19ins
	var bad error
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	unsupported := func(n ast.Node, what string) {
		if bad == nil {
			bad = fmt.Errorf("%s: %s", fset.Position(n.Pos()), what)
		}
	}
	points := 0
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			points++
			ins = append(ins, c19ins{off(s.Pos()), off(s.Pos()), "_vs.P(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				points++
				ins = append(ins, c19ins{off(n.Body.Lbrace) + 1, off(n.Body.Lbrace) + 1, " _vs.P() "})
			}
		case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.ChanType:
			unsupported(n, "goroutines and channels are not scheduled")
		}
		return true
	})
	if bad != nil {
		return nil, nil, bad
	}
	// switch bodies are blocks of clauses, which take no statements
	skip := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		var body *ast.BlockStmt
		switch n := n.(type) {
		case *ast.SwitchStmt:
			body = n.Body
		case *ast.TypeSwitchStmt:
			body = n.Body
		}
		if body != nil {
			for _, s := range body.List {
				skip[off(s.Pos())] = true
				points--
			}
		}
		return true
	})
	keep := ins[:0]
	for _, i := range ins {
		if !skip[i.off] {
			keep = append(keep, i)
		}
	}
	ins = keep
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		if p == "sync" {
			t := `"verifmc/vsched"`
			if s.Name == nil {
				t = "sync " + t
			}
			ins = append(ins, c19ins{off(s.Path.Pos()), off(s.Path.End()), t})
		}
		if p == "C" {
			return nil, nil, fmt.Errorf("%s: cgo", name)
		}
	}
	if 0 < points {
		ins = append(ins, c19ins{off(f.Name.End()), off(f.Name.End()), `; import _vs "verifmc/vsched"`})
	}
	var vars []string
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, s := range g.Specs {
				for _, id := range s.(*ast.ValueSpec).Names {
					if id.Name != "_" {
						vars = append(vars, id.Name)
					}
				}
			}
		}
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	w := &bytes.Buffer{}
	p := 0
	for _, i := range ins {
		w.Write(b[p:i.off])
		w.WriteString(i.s)
		p = i.end
	}
	w.Write(b[p:])
	return w.Bytes(), vars, nil
}

// c19build builds the scheduled driver and the race driver once for all processes of this run of the check.
func c19build() (sched, race string, schedErr error) {
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	root := filepath.Join(os.TempDir(), "c19")
	if err := os.MkdirAll(root, 0755); err != nil {
		panic(err)
	}
	lock, err := os.OpenFile(filepath.Join(root, "lock"), os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		panic(err)
	}
	defer lock.Close()
	if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
		panic(err)
	}
	sched, race = filepath.Join(root, "sched"), filepath.Join(root, "race")
	errFile := filepath.Join(root, "error")
	if _, err := os.Stat(filepath.Join(root, "done")); err == nil {
		if b, err := os.ReadFile(errFile); err == nil {
			schedErr = fmt.Errorf("%s", b)
		}
		return
	}
	mc := filepath.Join(verif, "mc")
	plain := filepath.Join(root, "plain")
	if out, err := exec.Command("cp", "-r", mc, plain).CombinedOutput(); err != nil {
		panic(fmt.Sprintf("%v: %s", err, out))
	}
	done := make(chan error)
	go func() {
		c := exec.Command("go", "build", "-race", "-o", race, ".")
		c.Dir = plain
		out, err := c.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("race driver: %v\n%s", err, out)
		}
		done <- err
	}()
	schedErr = func() error {
		lib, src := filepath.Join(root, "font"), filepath.Join(root, "src")
		if err := c19copy(repoDir(), lib); err != nil {
			return err
		}
		if out, err := exec.Command("cp", "-r", mc, src).CombinedOutput(); err != nil {
			return fmt.Errorf("%v: %s", err, out)
		}
		b, err := os.ReadFile(filepath.Join(src, "go.mod"))
		if err != nil {
			return err
		}
		b = []byte(strings.Replace(string(b), "=> /repo", "=> "+lib, 1))
		os.WriteFile(filepath.Join(src, "go.mod"), b, 0644)
		os.WriteFile(filepath.Join(src, "checks", "zz_c19globals.go"), []byte("package checks\n\nimport \"github.com/tdewolff/font\"\n\nfunc init() { c19Globals = font.VGlobals }\n"), 0644)
		c := exec.Command("go", "build", "-o", sched, ".")
		c.Dir = src
		if out, err := c.CombinedOutput(); err != nil {
			return fmt.Errorf("%v\n%s", err, out)
		}
		return nil
	}()
	if err := <-done; err != nil {
		panic(err)
	}
	if schedErr != nil {
		os.WriteFile(errFile, []byte(schedErr.Error()), 0644)
	}
	os.WriteFile(filepath.Join(root, "done"), nil, 0644)
	return
}
