// Command instr makes instrumented copies of sources of the repository, for
// the overlay of a build.
//
//	instr gate REPO OUT
//
// puts a gate at the start of the methods AnswerBytes of lib/server and Query
// of cmd/grpc/server.
//
//	instr points REPO OUT DIR...
//
// puts a call of sched.Point before each statement of the packages in the
// directories.
//
// It prints the overlay's replacements.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	at   int
	text string
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func sources(dir string) []string {
	l, err := filepath.Glob(filepath.Join(dir, "*.go"))
	fatal(err)
	var out []string
	for _, f := range l {
		if !strings.HasSuffix(f, "_test.go") {
			out = append(out, f)
		}
	}
	return out
}

func apply(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var out []byte
	last := 0
	for _, e := range edits {
		out = append(out, src[last:e.at]...)
		out = append(out, e.text...)
		last = e.at
	}
	return append(out, src[last:]...)
}

func main() {
	mode, repo, out := os.Args[1], os.Args[2], os.Args[3]
	rep := map[string]string{}
	skip := map[ast.Node]bool{} // bodies that hold clauses
	do := func(dir string, f func(fset *token.FileSet, file *ast.File, add func(pos token.Pos, text string))) {
		for _, name := range sources(filepath.Join(repo, dir)) {
			src, err := os.ReadFile(name)
			fatal(err)
			fset := token.NewFileSet()
			file, err := parser.ParseFile(fset, name, src, parser.ParseComments)
			fatal(err)
			var edits []edit
			f(fset, file, func(pos token.Pos, text string) {
				edits = append(edits, edit{fset.Position(pos).Offset, text})
			})
			if len(edits) == 0 {
				continue
			}
			to := filepath.Join(out, strings.Replace(filepath.Join(dir, filepath.Base(name)), "/", "_", -1))
			fatal(os.WriteFile(to, apply(src, edits), 0644))
			rep[name] = to
		}
	}
	switch mode {
	case "gate":
		imp := "; import verifgate \"github.com/si-co/vpir-code/aa_verif/gate\""
		// param is the name of the last parameter
		param := func(d *ast.FuncDecl) string {
			l := d.Type.Params.List
			if len(l) == 0 || len(l[len(l)-1].Names) == 0 {
				return ""
			}
			n := l[len(l)-1].Names
			if s := n[len(n)-1].Name; s != "_" {
				return s
			}
			return ""
		}
		methods := func(dir, name, call string) {
			do(dir, func(fset *token.FileSet, file *ast.File, add func(token.Pos, string)) {
				some := false
				for _, d := range file.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Recv == nil || fd.Name.Name != name || fd.Body == nil || param(fd) == "" {
						continue
					}
					some = true
					add(fd.Body.Lbrace+1, fmt.Sprintf(call, param(fd)))
				}
				if some {
					add(file.Name.End(), imp)
				}
			})
		}
		methods("lib/server", "AnswerBytes", " verifgate.At(\"answer\", %s);")
		methods("cmd/grpc/server", "Query", " verifgate.At(\"query\", %s.GetQuery());")
	case "points":
		id := 0
		for _, dir := range os.Args[4:] {
			do(dir, func(fset *token.FileSet, file *ast.File, add func(token.Pos, string)) {
				if file.Name.Name == "main" {
					return
				}
				some := false
				list := func(l []ast.Stmt) {
					for _, s := range l {
						if _, empty := s.(*ast.EmptyStmt); empty {
							continue
						}
						id++
						some = true
						add(s.Pos(), fmt.Sprintf("verifsched.Point(%d); ", id))
					}
				}
				ast.Inspect(file, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.SwitchStmt:
						for _, c := range n.Body.List {
							list(c.(*ast.CaseClause).Body)
						}
						skip[n.Body] = true
					case *ast.TypeSwitchStmt:
						for _, c := range n.Body.List {
							list(c.(*ast.CaseClause).Body)
						}
						skip[n.Body] = true
					case *ast.SelectStmt:
						for _, c := range n.Body.List {
							list(c.(*ast.CommClause).Body)
						}
						skip[n.Body] = true
					case *ast.BlockStmt:
						if !skip[n] {
							list(n.List)
						}
					}
					return true
				})
				if some {
					add(file.Name.End(), "; import verifsched \"github.com/si-co/vpir-code/aa_verif/sched\"")
				}
			})
		}
	default:
		fatal(fmt.Errorf("unknown mode %s", mode))
	}
	fatal(json.NewEncoder(os.Stdout).Encode(rep))
}
