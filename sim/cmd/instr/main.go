// Command instr writes a go build overlay in which every statement of the
// library packages under ROOT is preceded by a call to the simulator's
// statement hook and package sync is replaced by its simulated counterpart.
//
//	instr ROOT OUTDIR [EXPORTS DICT]
//
// EXPORTS lists "importpath exportfile" of every dependency; with it, loops over
// maps are made to visit the entries in an order that the seed decides, and the
// Go file DICT is replaced by one that lists the constants of the sources, which
// the generators use as vocabulary.
//
// It changes nothing under ROOT; OUTDIR/overlay.json names the rewritten copies.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"maps"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, end int
	text     string
}

func main() {
	root, out := os.Args[1], os.Args[2]
	at := &sites{}
	if len(os.Args) > 3 {
		at = check(root, os.Args[3])
	}
	replace := map[string]string{}
	if len(os.Args) > 4 {
		dst := filepath.Join(out, "dict.go")
		if err := os.WriteFile(dst, dict.source(), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(2)
		}
		replace[os.Args[4]] = dst
	}
	var ranges, works int
	var site, files int
	err := filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if n := d.Name(); path != root && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err // does not compile anyway
		}
		if f.Name.Name == "main" {
			return nil
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		var edits []edit
		pkgEnd := off(f.Name.End())
		used := false
		keep := map[string]bool{}
		put := func(from, to token.Pos, text string) {
			edits = append(edits, edit{off(from), off(to), text})
		}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				site++
				used = true
				edits = append(edits, edit{off(s.Pos()), off(s.Pos()), fmt.Sprintf("simhook__.Y(%d); ", site)})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				if n != nil && !onlyClauses(n.List) {
					stmts(n.List)
				}
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.CommClause:
				stmts(n.Body)
			case *ast.RangeStmt:
				if at.maps[site1{path, off(n.X.Pos())}] {
					ranges++
					used = true
					edits = append(edits, edit{off(n.X.Pos()), off(n.X.Pos()), "simhook__.Range("}, edit{off(n.X.End()), off(n.X.End()), ")"})
				}
			case *ast.CallExpr:
				w := at.works[site1{path, off(n.Pos())}]
				if w == "" {
					break
				}
				used = true
				works++
				switch w {
				case "slice", "string": // append(x, y...)
					y := n.Args[len(n.Args)-1]
					put(y.Pos(), y.Pos(), "simhook__."+strings.ToUpper(w[:1])+w[1:]+"(")
					put(y.End(), y.End(), ")")
				case "Copy", "CopyString":
					put(n.Fun.Pos(), n.Fun.End(), "simhook__."+w)
				default:
					fun := n.Fun.(*ast.SelectorExpr)
					put(fun.Pos(), fun.End(), "simhook__."+w)
					keep[fun.X.(*ast.Ident).Name+"."+alive[w[:len(w)-len(fun.Sel.Name)]]] = true
				}
			case *ast.ImportSpec:
				if p, _ := strconv.Unquote(n.Path.Value); p == "sync" {
					name := "sync "
					if n.Name != nil {
						name = ""
					}
					edits = append(edits, edit{off(n.Path.Pos()), off(n.Path.End()), name + `"verif.local/gitsim/simsync"`})
				}
			}
			return true
		})
		if !used && len(edits) == 0 {
			return nil
		}
		if used {
			edits = append(edits, edit{pkgEnd, pkgEnd, `; import simhook__ "verif.local/gitsim/simhook"`})
		}
		for _, k := range slices.Sorted(maps.Keys(keep)) {
			edits = append(edits, edit{len(src), len(src), "\nvar _ = " + k + "\n"})
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
		var b strings.Builder
		last := 0
		for _, e := range edits {
			b.Write(src[last:e.off])
			b.WriteString(e.text)
			last = e.end
		}
		b.Write(src[last:])
		files++
		dst := filepath.Join(out, fmt.Sprintf("f%03d_%s", files, filepath.Base(path)))
		if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
			return err
		}
		replace[path] = dst
		return nil
	})
	if err == nil {
		var b []byte
		b, err = json.Marshal(map[string]any{"Replace": replace})
		if err == nil {
			err = os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
	fmt.Fprintf(os.Stderr, "instr: %d statements, %d map loops, %d counted calls in %d files\n", site, ranges, works, files)
}

// onlyClauses: the body of a switch or select holds clauses, not statements.
func onlyClauses(list []ast.Stmt) bool {
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return true
		}
	}
	return false
}

type site1 struct {
	file string
	off  int
}

// sites are the places that only type-checking finds.
type sites struct {
	maps  map[site1]bool   // range operands that are maps
	works map[site1]string // calls that go over much, and what replaces them
}

// alive is what keeps a package imported, by the prefix of its replacements.
var alive = map[string]string{"Bytes": "Equal", "Strings": "Index", "Slices": "Index[[]int]", "Sort": "Ints", "Sha1": "New"}

// counted are the functions that simhook has a replacement for.
var counted = map[string]string{}

func init() {
	for pkg, names := range map[string]string{
		"bytes":       "Contains Count Index IndexByte LastIndex LastIndexByte Equal HasPrefix Compare ToLower ToUpper Split Fields",
		"strings":     "Contains Count Index IndexByte LastIndex LastIndexByte HasPrefix ToLower ToUpper Split Fields Join",
		"slices":      "Contains Index Insert Delete Reverse Equal",
		"sort":        "Strings",
		"crypto/sha1": "Sum",
	} {
		prefix := pkg[strings.LastIndexByte(pkg, '/')+1:]
		prefix = strings.ToUpper(prefix[:1]) + prefix[1:]
		for _, n := range strings.Fields(names) {
			counted[pkg+"."+n] = prefix + n
		}
	}
}

// workOf tells what stands for a call, if anything does.
func workOf(c *ast.CallExpr, info *types.Info) string {
	under := func(e ast.Expr) types.Type {
		if t := info.Types[e].Type; t != nil && info.Types[e].Value == nil {
			return t.Underlying()
		}
		return nil
	}
	switch fun := c.Fun.(type) {
	case *ast.Ident:
		b, ok := info.Uses[fun].(*types.Builtin)
		if !ok {
			return ""
		}
		last := c.Args[len(c.Args)-1]
		switch t := under(last).(type) {
		case *types.Slice:
			if b.Name() == "append" && c.Ellipsis.IsValid() {
				return "slice"
			}
			if d, ok := under(c.Args[0]).(*types.Slice); ok && b.Name() == "copy" && types.Identical(d.Elem(), t.Elem()) {
				return "Copy"
			}
		case *types.Basic:
			if t.Info()&types.IsString == 0 || t.Kind() == types.UntypedString {
				break
			}
			if b.Name() == "append" && c.Ellipsis.IsValid() {
				return "string"
			}
			if _, ok := under(c.Args[0]).(*types.Slice); ok && b.Name() == "copy" {
				return "CopyString"
			}
		}
	case *ast.SelectorExpr:
		if _, ok := fun.X.(*ast.Ident); !ok {
			break
		}
		f, ok := info.Uses[fun.Sel].(*types.Func)
		if !ok || f.Pkg() == nil || f.Type().(*types.Signature).Recv() != nil {
			break
		}
		if _, ok := info.Uses[fun.X.(*ast.Ident)].(*types.PkgName); !ok {
			break
		}
		return counted[f.Pkg().Path()+"."+f.Name()]
	}
	return ""
}

// check type-checks the packages under root.
func check(root, exports string) *sites {
	b, err := os.ReadFile(exports)
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
	export := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if p, f, ok := strings.Cut(l, " "); ok && f != "" {
			export[p] = f
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := export[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	dirs := map[string][]*ast.File{}
	filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() && path != root && strings.HasPrefix(d.Name(), ".") {
			return filepath.SkipDir
		}
		if d.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		if f, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution); err == nil {
			dirs[filepath.Dir(path)] = append(dirs[filepath.Dir(path)], f)
		}
		return nil
	})
	found := &sites{map[site1]bool{}, map[site1]string{}}
	for dir, files := range dirs {
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		conf.Check(dir, fset, files, info)
		for _, f := range files {
			ast.Inspect(f, func(n ast.Node) bool {
				if e, ok := n.(ast.Expr); ok {
					dict.add(fset.Position(f.Pos()).Filename, e, info)
				}
				if c, ok := n.(*ast.CallExpr); ok && len(c.Args) > 0 {
					if w := workOf(c, info); w != "" {
						pos := fset.Position(c.Pos())
						found.works[site1{pos.Filename, pos.Offset}] = w
					}
				}
				r, ok := n.(*ast.RangeStmt)
				if !ok {
					return true
				}
				if t := info.Types[r.X].Type; t != nil {
					if _, ok := t.Underlying().(*types.Map); ok {
						pos := fset.Position(r.X.Pos())
						found.maps[site1{pos.Filename, pos.Offset}] = true
					}
				}
				return true
			})
		}
	}
	return found
}

// words are the constants of the sources: strings and numbers by file, so that
// a generated file with thousands of them does not drown the others.
type words struct {
	strs map[string]map[string]bool
	ints map[string]map[int64]bool
}

var dict = words{map[string]map[string]bool{}, map[string]map[int64]bool{}}

func (w *words) add(file string, e ast.Expr, info *types.Info) {
	if c, ok := e.(*ast.CompositeLit); ok { // []byte{...}
		var b []byte
		for _, x := range c.Elts {
			v := info.Types[x].Value
			if v == nil || v.Kind() != constant.Int {
				return
			}
			n, ok := constant.Int64Val(v)
			if !ok || n < 0 || n > 255 {
				return
			}
			b = append(b, byte(n))
		}
		w.str(file, string(b))
		return
	}
	v := info.Types[e].Value
	if v == nil {
		return
	}
	switch v.Kind() {
	case constant.String:
		w.str(file, constant.StringVal(v))
	case constant.Int:
		if n, ok := constant.Int64Val(v); ok {
			if w.ints[file] == nil {
				w.ints[file] = map[int64]bool{}
			}
			w.ints[file][n] = true
		}
	}
}

func (w *words) str(file, s string) {
	if s == "" || len(s) > 200 {
		return
	}
	if w.strs[file] == nil {
		w.strs[file] = map[string]bool{}
	}
	w.strs[file][s] = true
}

func (w *words) source() []byte {
	var b strings.Builder
	b.WriteString("package simhook\n\nvar Words = [][]string{\n")
	for _, f := range slices.Sorted(maps.Keys(w.strs)) {
		fmt.Fprintf(&b, "\t%#v,\n", slices.Sorted(maps.Keys(w.strs[f])))
	}
	b.WriteString("}\n\nvar Ints = [][]int64{\n")
	for _, f := range slices.Sorted(maps.Keys(w.ints)) {
		fmt.Fprintf(&b, "\t%#v,\n", slices.Sorted(maps.Keys(w.ints[f])))
	}
	b.WriteString("}\n")
	return []byte(b.String())
}
