// Command instr writes instrumented copies of the named packages' current
// sources and an overlay that puts them in the place of the originals.
//
// In the copies, sync and sync/atomic are vsched's, go statements start threads
// of the controlled scheduler, and every statement that can touch memory
// another thread sees is preceded by a scheduling point. Nothing else changes.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func main() {
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if err := run(*out, flag.Args()); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

type pkg struct {
	Dir        string
	ImportPath string
	GoFiles    []string
	CgoFiles   []string
}

func run(out string, pats []string) error {
	cmd := exec.Command("go", append([]string{"list", "-json=Dir,ImportPath,GoFiles,CgoFiles"}, pats...)...)
	if g := os.Getenv("GO126"); g != "" {
		cmd.Path, cmd.Args[0] = g, g
	}
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return err
	}
	repl := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(b))
	n := 0
	for dec.More() {
		var p pkg
		if err := dec.Decode(&p); err != nil {
			return err
		}
		dir := filepath.Join(out, strings.ReplaceAll(p.ImportPath, "/", "_"))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return err
		}
		for _, f := range p.GoFiles {
			src := filepath.Join(p.Dir, f)
			res, err := rewrite(src)
			if err != nil {
				return err
			}
			dst := filepath.Join(dir, f)
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				return err
			}
			repl[src] = dst
			n++
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	return os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644)
}

type edit struct {
	at, end int
	seq     int
	text    string
}

type rw struct {
	fset  *token.FileSet
	base  int
	src   []byte
	edits []edit
	pkgs  map[string]bool // names of imported packages
	funcs map[string]bool
}

func (r *rw) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rw) insert(p token.Pos, text string) {
	r.edits = append(r.edits, edit{at: r.off(p), end: r.off(p), seq: len(r.edits), text: text})
}

func (r *rw) replace(a, b token.Pos, text string) {
	r.edits = append(r.edits, edit{at: r.off(a), end: r.off(b), seq: len(r.edits), text: text})
}

var swap = map[string][2]string{
	"sync":        {"sync", "verif.local/mc/vsched/vsync"},
	"sync/atomic": {"atomic", "verif.local/mc/vsched/vatomic"},
}

func rewrite(path string) ([]byte, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	r := &rw{fset: fset, src: src, pkgs: map[string]bool{}}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(p)
		if im.Name != nil {
			name = im.Name.Name
		}
		r.pkgs[name] = true
		if s, ok := swap[p]; ok {
			if im.Name == nil {
				r.replace(im.Path.Pos(), im.Path.End(), fmt.Sprintf("%s %q", s[0], s[1]))
			} else {
				r.replace(im.Path.Pos(), im.Path.End(), strconv.Quote(s[1]))
			}
		}
	}
	r.insert(f.Name.End(), "; import zzvsched \"verif.local/mc/vsched\"")
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			// function literals in package variables
			ast.Inspect(d, r.visit)
			continue
		}
		if fd.Body == nil || fd.Name.Name == "init" && fd.Recv == nil {
			continue
		}
		ast.Inspect(fd.Body, r.visit)
	}
	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].at != r.edits[j].at {
			return r.edits[i].at < r.edits[j].at
		}
		return r.edits[i].seq < r.edits[j].seq
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range r.edits {
		if e.at < pos {
			return nil, fmt.Errorf("%s: overlapping edits at offset %d", path, e.at)
		}
		b.Write(src[pos:e.at])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	b.WriteString("\nvar _ = zzvsched.Point\n")
	if _, err := parser.ParseFile(token.NewFileSet(), path, b.Bytes(), 0); err != nil {
		return nil, fmt.Errorf("rewritten %s: %w", path, err)
	}
	return b.Bytes(), nil
}

func (r *rw) visit(n ast.Node) bool {
	var list []ast.Stmt
	switch n := n.(type) {
	case *ast.BlockStmt:
		list = n.List
	case *ast.CaseClause:
		list = n.Body
	case *ast.CommClause:
		list = n.Body
	case *ast.GoStmt:
		r.goStmt(n)
	default:
		return true
	}
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt, *ast.BranchStmt:
			continue
		}
		if r.touches(s) {
			r.insert(s.Pos(), "zzvsched.Point(); ")
		}
	}
	return true
}

// goStmt turns "go f(a)" into a thread; function and arguments are evaluated
// first, as the language has it.
func (r *rw) goStmt(g *ast.GoStmt) {
	c := g.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.replace(g.Go, fl.Pos(), "zzvsched.Go(")
		r.replace(c.Lparen, c.Rparen+1, ")")
		return
	}
	var args []string
	r.replace(g.Go, c.Fun.Pos(), "{ zzf := ")
	r.replace(c.Lparen, c.Lparen+1, "; ")
	for i, a := range c.Args {
		v := fmt.Sprintf("zza%d", i)
		r.insert(a.Pos(), v+" := ")
		r.insert(a.End(), "; ")
		args = append(args, v)
		if i+1 < len(c.Args) {
			// drop the comma
			from, to := a.End(), c.Args[i+1].Pos()
			r.replace(from, to, "")
		}
	}
	call := "zzf(" + strings.Join(args, ", ")
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	end := c.Rparen
	if len(c.Args) > 0 {
		end = c.Args[len(c.Args)-1].End()
	}
	r.replace(end, c.Rparen+1, "zzvsched.Go(func() { "+call+") }) }")
}

// touches reports whether the statement's own expressions (not those of nested
// blocks) can read or write memory that is not the goroutine's own.
func (r *rw) touches(s ast.Stmt) bool {
	var es []ast.Node
	switch s := s.(type) {
	case *ast.IfStmt:
		es = append(es, s.Init, s.Cond)
	case *ast.ForStmt:
		es = append(es, s.Init, s.Cond, s.Post)
	case *ast.RangeStmt:
		return true
	case *ast.SwitchStmt:
		es = append(es, s.Init, s.Tag)
		for _, c := range s.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				es = append(es, e)
			}
		}
	case *ast.TypeSwitchStmt:
		es = append(es, s.Init, s.Assign)
	case *ast.SelectStmt:
		return true
	case *ast.BlockStmt:
		return false
	case *ast.LabeledStmt:
		return r.touches(s.Stmt)
	case *ast.DeferStmt:
		// Only the arguments are evaluated here.
		for _, a := range s.Call.Args {
			es = append(es, a)
		}
	case *ast.GoStmt:
		return false // the new thread brings its own point
	default:
		es = append(es, s)
	}
	hit := false
	for _, e := range es {
		if e == nil || isNil(e) {
			continue
		}
		ast.Inspect(e, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.SelectorExpr:
				if id, ok := n.X.(*ast.Ident); ok && r.pkgs[id.Name] && id.Obj == nil {
					return true
				}
				hit = true
			case *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr:
				hit = true
			case *ast.CallExpr:
				// append, copy, len, delete and ranges over what an identifier
				// aliases; calls of functions get points of their own.
				if id, ok := n.Fun.(*ast.Ident); ok {
					switch id.Name {
					case "append", "copy", "len", "delete", "clear":
						hit = true
					}
				}
				for _, a := range n.Args {
					_ = a
				}
			}
			return !hit
		})
	}
	return hit
}

func isNil(n ast.Node) bool {
	switch n := n.(type) {
	case ast.Stmt:
		return n == nil
	case ast.Expr:
		return n == nil
	}
	return false
}
