// Instr rewrites generated Go code so that the simulator decides the order of map iteration and the switches of
// goroutines, and answers questions about Go's own library (times, zones, patterns).
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

var exports = map[string]string{}

func lookup(path string) (io.ReadCloser, error) {
	file, ok := exports[path]
	if !ok {
		return nil, fmt.Errorf("no export data for %s", path)
	}
	return os.Open(file)
}

type request struct {
	Op, Dir, Out, Graph, Name, Layout, Value, Pattern string
}

type rewriter struct {
	info  *types.Info
	place int
	maps  int
}

func (w *rewriter) yield() ast.Stmt {
	w.place++
	return &ast.ExprStmt{X: &ast.CallExpr{
		Fun:  &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent("Y")},
		Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(w.place)}}}}
}

func (w *rewriter) list(in []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(in))
	for _, s := range in {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			out = append(out, s)
			continue
		}
		out = append(out, w.yield(), s)
	}
	return out
}

func (w *rewriter) node(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.BlockStmt:
		clauses := false
		for _, s := range x.List {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				clauses = true
			}
		}
		if !clauses {
			x.List = w.list(x.List)
		}
	case *ast.CaseClause:
		x.Body = w.list(x.Body)
	case *ast.CommClause:
		x.Body = w.list(x.Body)
	case *ast.RangeStmt:
		tv, ok := w.info.Types[x.X]
		if ok && tv.Type != nil {
			if _, isMap := tv.Type.Underlying().(*types.Map); isMap {
				w.maps++
				x.X = &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent("Range")},
					Args: []ast.Expr{x.X}}
			}
		}
	case *ast.AssignStmt:
		if x.Tok == token.ASSIGN && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
			tv, ok := w.info.Types[x.Rhs[0]]
			if ok && tv.Type != nil && tv.Value == nil && !tv.IsNil() && tv.IsValue() {
				if b, basic := tv.Type.(*types.Basic); basic && (b.Info()&types.IsUntyped != 0 || b.Kind() == types.Invalid) {
					break
				}
				if _, lit := x.Rhs[0].(*ast.FuncLit); lit {
					break
				}
				if strings.Contains(tv.Type.String(), "invalid type") {
					break
				}
				if _, tuple := tv.Type.(*types.Tuple); tuple {
					break
				}
				w.place++
				x.Rhs[0] = &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent("E")},
					Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(w.place)}, x.Rhs[0]}}
			}
		}
	}
	return true
}

func instrument(req request) (interface{}, error) {
	fset := token.NewFileSet()
	names, err := filepath.Glob(filepath.Join(req.Dir, "*.go"))
	if err != nil {
		return nil, err
	}
	sort.Strings(names)
	files := []*ast.File{}
	used := []string{}
	for _, name := range names {
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		file, err := parser.ParseFile(fset, name, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, file)
		used = append(used, name)
	}
	if len(files) == 0 {
		return nil, fmt.Errorf("no Go files")
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	problems := []string{}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup),
		Error: func(err error) { problems = append(problems, err.Error()) }}
	pkg, _ := conf.Check("w/"+req.Name, fset, files, info)
	plain := strings.ToLower(strings.ReplaceAll(req.Graph, "_", ""))
	entry := ""
	for _, name := range pkg.Scope().Names() {
		if strings.HasSuffix(name, "FromJSONable") && strings.ToLower(strings.TrimSuffix(name, "FromJSONable")) == plain {
			entry = strings.TrimSuffix(name, "FromJSONable")
		}
	}
	if entry == "" {
		return nil, fmt.Errorf("no entry point for %s in %v", req.Graph, pkg.Scope().Names())
	}
	w := &rewriter{info: info}
	if err := os.MkdirAll(req.Out, 0755); err != nil {
		return nil, err
	}
	for i, file := range files {
		for _, decl := range file.Decls {
			ast.Inspect(decl, w.node)
		}
		file.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Path: &ast.BasicLit{Kind: token.STRING, Value: `"simrt"`}}}}}, file.Decls...)
		file.Decls = append(file.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
			Names:  []*ast.Ident{ast.NewIdent("_")},
			Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent("Y")}}}}})
		for _, spec := range file.Imports {
			if spec.Path.Value == `"sync"` {
				spec.Path.Value = `"simsync"`
				if spec.Name == nil {
					spec.Name = ast.NewIdent("sync")
				}
			}
		}
		var b bytes.Buffer
		// positions are meaningless after the rewriting
		if err := format.Node(&b, fset, file); err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(req.Out, filepath.Base(used[i])), b.Bytes(), 0644); err != nil {
			return nil, err
		}
	}
	text := fmt.Sprintf(`package %s

import "simrt"

func init() {
	simrt.Register(%q, simrt.Entry{
		Parse: func(doc interface{}, ref string, cap uint64) (interface{}, []simrt.Err, bool, bool) {
			target := &%s{}
			errors := NewErrors(cap)
			%sFromJSONable(doc, ref, target, errors)
			out := []simrt.Err{}
			for _, e := range errors.Values() {
				out = append(out, simrt.Err{Ref: e.Ref, Message: e.Message})
			}
			return target, out, errors.Empty(), errors.Full()
		},
		Serialize: func(graph interface{}) (interface{}, error) {
			return %sToJSONable(graph.(*%s))
		}})
}
`, pkg.Name(), req.Name, entry, entry, entry, entry)
	if err := os.WriteFile(filepath.Join(req.Out, "zz_sim.go"), []byte(text), 0644); err != nil {
		return nil, err
	}
	return map[string]interface{}{"places": w.place, "maps": w.maps, "problems": problems}, nil
}

var patterns = map[string]*regexp.Regexp{}

func handle(req request) (interface{}, error) {
	switch req.Op {
	case "instrument":
		return instrument(req)
	case "when":
		t, err := time.Parse(req.Layout, req.Value)
		if err != nil {
			return map[string]interface{}{"ok": false}, nil
		}
		return map[string]interface{}{"ok": true, "value": t.Format("2006-01-02T15:04:05.999999999Z07:00"),
			"again": t.Format(req.Layout)}, nil
	case "format":
		t, err := time.Parse(time.RFC3339, req.Value)
		if err != nil {
			return nil, err
		}
		return map[string]interface{}{"value": t.Format(req.Layout)}, nil
	case "zone":
		loc, err := time.LoadLocation(req.Value)
		if err != nil {
			return map[string]interface{}{"ok": false}, nil
		}
		return map[string]interface{}{"ok": true, "value": loc.String()}, nil
	case "pattern":
		re, ok := patterns[req.Pattern]
		if !ok {
			var err error
			re, err = regexp.Compile(req.Pattern)
			if err != nil {
				return nil, err
			}
			patterns[req.Pattern] = re
		}
		return map[string]interface{}{"ok": re.MatchString(req.Value)}, nil
	}
	return nil, fmt.Errorf("unknown op %q", req.Op)
}

func main() {
	if len(os.Args) > 1 {
		text, err := os.ReadFile(os.Args[1])
		if err != nil {
			panic(err)
		}
		for _, line := range strings.Split(string(text), "\n") {
			if path, file, ok := strings.Cut(line, " "); ok && file != "" {
				exports[path] = file
			}
		}
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var req request
		var out interface{}
		if err = json.Unmarshal(line, &req); err == nil {
			out, err = handle(req)
		}
		if err != nil {
			out = map[string]interface{}{"error": err.Error()}
		}
		text, _ := json.Marshal(out)
		fmt.Println(string(text))
	}
}
