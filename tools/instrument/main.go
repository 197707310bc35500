// instrument copies the non-test Go sources of the repository under test into
// an output directory, inserting a scheduler point before every statement and
// an allocation charge on every make(), and writes a `go build -overlay` file
// that substitutes the copies and adds the simulator's own packages.
//
// The repository itself is never written. Text is inserted on existing lines,
// so positions in failures still name the repository's own lines.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const simrtPath = "/internal/zzverif/simrt"

func die(a ...any) { fmt.Fprintln(os.Stderr, a...); os.Exit(3) }

func modulePath(repo string) string {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die(err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	die("no module line")
	return ""
}

type ins struct {
	off  int
	text string
}

var tileHooked bool

// sites counts the scheduler points.
var sites int

func typeText(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.StarExpr:
		return typeText(x.X)
	case *ast.SelectorExpr:
		return x.Sel.Name
	case *ast.Ident:
		return x.Name
	}
	return ""
}

// tileHook finds decode_tile( ), so that a simulation may put a scripted tile
// decoder in its place. Where the code has no such method (any more), the
// simulations that want it are left out.
func tileHook(f *ast.File) (token.Pos, string) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Name.Name != "decodeTile" || fd.Body == nil || fd.Type.Results != nil {
			continue
		}
		p := map[string]string{}
		for _, fl := range fd.Type.Params.List {
			for _, n := range fl.Names {
				p[typeText(fl.Type)] = n.Name
			}
		}
		b, s, u := p["BitStream"], p["State"], p["UncompressedHeader"]
		if b == "" || s == "" || u == "" || b == "_" || s == "_" || u == "_" {
			continue
		}
		return fd.Body.Lbrace, "if VerifTile != nil { VerifTile(" + b + ", " + s + ", " + u + ".DisableCdfUpdate); return };"
	}
	return token.NoPos, ""
}

// lockHooks marks critical sections: no scheduling inside them.
func lockHooks(n ast.Node, off func(token.Pos) int) []ins {
	method := func(c *ast.CallExpr) string {
		if s, ok := c.Fun.(*ast.SelectorExpr); ok {
			return s.Sel.Name
		}
		return ""
	}
	switch x := n.(type) {
	case *ast.ExprStmt:
		c, ok := x.X.(*ast.CallExpr)
		if !ok {
			break
		}
		switch method(c) {
		case "Lock", "RLock":
			return []ins{{off(x.Pos()), "verif__simrt.Acquire("}, {off(c.Lparen), ")"}}
		case "Unlock", "RUnlock":
			return []ins{{off(x.End()), ";verif__simrt.Release()"}}
		case "Do":
			return []ins{{off(x.Pos()), "verif__simrt.Hold();"}, {off(x.End()), ";verif__simrt.Release()"}}
		}
	case *ast.DeferStmt:
		switch method(x.Call) {
		case "Unlock", "RUnlock":
			return []ins{{off(x.Pos()), "defer verif__simrt.Release();"}}
		}
	}
	return nil
}

func instrument(src []byte, name, mod string) (out []byte, used bool, f *ast.File) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		die(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var list []ins
	yield := func() string {
		sites++
		used = true
		return fmt.Sprintf("verif__simrt.Y(%d);", sites)
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			list = append(list, ins{off(s.Pos()), yield()})
		}
	}
	locks := false
	for _, i := range f.Imports {
		if i.Path.Value == `"sync"` {
			locks = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if locks {
			list = append(list, lockHooks(n, off)...)
		}
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.ForStmt:
			list = append(list, ins{off(x.Body.Lbrace) + 1, yield()})
		case *ast.RangeStmt:
			list = append(list, ins{off(x.Body.Lbrace) + 1, yield()})
		case *ast.FuncDecl:
			if x.Body != nil {
				list = append(list, ins{off(x.Body.Lbrace) + 1, yield()})
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) >= 2 {
				a := x.Args[len(x.Args)-1]
				list = append(list, ins{off(a.Pos()), "verif__simrt.A("}, ins{off(a.End()), ")"})
				used = true
			}
		}
		return true
	})
	if f.Name.Name == "tilegroup" {
		if o, t := tileHook(f); o != token.NoPos {
			list = append(list, ins{off(o) + 1, t})
			tileHooked = true
			used = true
		}
	}
	if used {
		list = append(list, ins{off(f.Name.End()), "; import verif__simrt \"" + mod + simrtPath + "\""})
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	pos := 0
	for _, i := range list {
		out = append(out, src[pos:i.off]...)
		out = append(out, i.text...)
		pos = i.off
	}
	out = append(out, src[pos:]...)
	return out, used, f
}

// packageVars lists the variables a file declares for its package.
func packageVars(f *ast.File) (l []string) {
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, s := range gd.Specs {
			for _, id := range s.(*ast.ValueSpec).Names {
				if id.Name != "_" {
					l = append(l, id.Name)
				}
			}
		}
	}
	return
}

// importable tells whether the simulator may import a package.
func importable(dir string) bool {
	i := strings.Index("/"+filepath.ToSlash(dir)+"/", "/internal/")
	return i <= 0
}

// runMethod is the name of the parser's method that decodes a stream: it has
// no parameters and returns the units.
func runMethod(dir string) string {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	other := ""
	for _, p := range files {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			die(err)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv == nil || typeText(fd.Recv.List[0].Type) != "Parser" || fd.Type.Params.NumFields() != 0 {
				continue
			}
			if fd.Name.Name == "bitstream" {
				return "bitstream"
			}
			if fd.Type.Results.NumFields() == 1 {
				if a, ok := fd.Type.Results.List[0].Type.(*ast.ArrayType); ok && typeText(a.Elt) == "Obu" {
					other = fd.Name.Name
				}
			}
		}
	}
	if other == "" {
		die("the parser has no method that decodes a stream")
	}
	return other
}

func main() {
	if len(os.Args) != 4 {
		die("usage: instrument REPO SIMDIR OUTDIR")
	}
	repo, sim, outdir := os.Args[1], os.Args[2], os.Args[3]
	mod := modulePath(repo)
	overlay := map[string]string{}
	gen := filepath.Join(outdir, "src")
	os.RemoveAll(gen)
	n := 0
	defaults := []string{}
	globals := map[string][]string{} // package directory, and package name: variables
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || b == "zzverif") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		out, used, f := instrument(src, p, mod)
		if k := filepath.Dir(rel) + " " + f.Name.Name; f.Name.Name != "main" {
			globals[k] = append(globals[k], packageVars(f)...)
		}
		if f.Name.Name == "uncompressedheader" {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						if strings.HasSuffix(id.Name, "_CDF") {
							defaults = append(defaults, id.Name)
						}
					}
				}
			}
		}
		if !used {
			return nil
		}
		dst := filepath.Join(gen, rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			return err
		}
		overlay[p] = dst
		n++
		return nil
	})
	if err != nil {
		die(err)
	}
	add := func(rel, text string) {
		dst := filepath.Join(gen, "zz", strings.ReplaceAll(rel, "/", "__"))
		os.MkdirAll(filepath.Dir(dst), 0o755)
		if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
			die(err)
		}
		overlay[filepath.Join(repo, rel)] = dst
	}
	add("internal/parser/zz_verif_access.go", `package parser

// VerifRun runs bitstream( ) on whatever data the reader holds now.
func (p *Parser) VerifRun() { p.`+runMethod(filepath.Join(repo, "internal/parser"))+`() }
`)
	add("internal/tilegroup/zz_verif_hook.go", `package tilegroup

import (
	"`+mod+`/internal/bitstream"
	"`+mod+`/internal/state"
)

// VerifTile replaces decode_tile( ) when it is set.
var VerifTile func(b *bitstream.BitStream, s *state.State, disableCdfUpdate bool)

const VerifTileHooked = `+fmt.Sprint(tileHooked)+"\n")
	sort.Strings(defaults)
	var sb strings.Builder
	sb.WriteString("package uncompressedheader\n\n// VerifDefaults returns the default probability tables by name.\nfunc VerifDefaults() map[string]any {\n\treturn map[string]any{\n")
	for _, d := range defaults {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", d, d)
	}
	sb.WriteString("\t}\n}\n")
	add("internal/uncompressedheader/zz_verif_defaults.go", sb.String())
	// everything the packages keep for the life of the process
	var all, imps strings.Builder
	dirs := []string{}
	for k := range globals {
		dirs = append(dirs, k)
	}
	sort.Strings(dirs)
	for i, k := range dirs {
		dir, name, _ := strings.Cut(k, " ")
		if len(globals[k]) == 0 || name == "logger" || !importable(dir) {
			continue
		}
		sort.Strings(globals[k])
		var g strings.Builder
		g.WriteString("package " + name + "\n\n// VerifGlobals returns pointers to the package's variables.\nfunc VerifGlobals() map[string]any {\n\treturn map[string]any{\n")
		for _, v := range globals[k] {
			fmt.Fprintf(&g, "\t\t%q: &%s,\n", name+"."+v, v)
		}
		g.WriteString("\t}\n}\n")
		add(filepath.Join(dir, "zz_verif_globals.go"), g.String())
		fmt.Fprintf(&imps, "\tg%d %q\n", i, mod+"/"+filepath.ToSlash(dir))
		fmt.Fprintf(&all, "\tg%d.VerifGlobals,\n", i)
	}
	add("internal/zzverif/sim/zz_globals.go", "package main\n\nimport (\n"+imps.String()+")\n\nvar repoGlobals = []func() map[string]any{\n"+all.String()+"}\n\nconst repoModule = "+fmt.Sprintf("%q", mod)+"\n")
	// the simulator's own sources
	err = filepath.Walk(sim, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() {
			rel, _ := filepath.Rel(sim, p)
			if strings.HasSuffix(p, ".go") {
				if filepath.Dir(rel) == "." {
					rel = filepath.Join("sim", rel)
				}
				overlay[filepath.Join(repo, "internal/zzverif", rel)] = p
			}
		}
		return nil
	})
	if err != nil {
		die(err)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(outdir, "overlay.json"), b, 0o644); err != nil {
		die(err)
	}
	fmt.Printf("instrumented %d files\n", n)
}
