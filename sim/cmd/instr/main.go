// Command instr prepares the current /repo working tree for simulation without
// touching it: it writes instrumented copies of the non-test sources of the
// given packages plus a go build -overlay file that swaps them in.
//
// What it rewrites (by position in the token stream, judging nothing about how
// the code is written):
//   - a call to simrt.Y (yield point / step counter) before every statement,
//   - sync.Pool/Map/Mutex/RWMutex/Once(Func/Value/Values) -> simulator versions,
//   - range over a map -> range in an order drawn by the simulator,
//   - os.ReadFile/Open/OpenFile/File -> fault-injecting file layer,
//   - time.Now/Since -> simulated clock,
//   - package level variables get a reset function, so that a run can start from
//     the state of a freshly started process.
//
// Packages using channels, select, go statements, sync.Cond or sync.WaitGroup are
// left without yield points and with real sync primitives (coarse mode), because
// their tasks would not be under the simulator's control.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const rt = "simrt__"

type edit struct {
	pos, end int
	text     string
	seq      int
}

type fileCtx struct {
	path    string
	src     []byte
	file    *ast.File
	edits   []edit
	imports map[string]string // local name -> path
	keep    map[string]string // import local name -> keepalive decl
	tail    strings.Builder
}

func (f *fileCtx) add(pos, end int, text string) {
	f.edits = append(f.edits, edit{pos, end, text, len(f.edits)})
}

// render returns src[from:to] with the edits inside that range applied.
func (f *fileCtx) render(from, to int) string {
	es := make([]edit, 0, len(f.edits))
	for _, e := range f.edits {
		if e.pos >= from && e.end <= to {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].pos != es[j].pos {
			return es[i].pos < es[j].pos
		}
		return es[i].seq < es[j].seq
	})
	var sb strings.Builder
	at := from
	for _, e := range es {
		if e.pos < at {
			continue
		}
		sb.Write(f.src[at:e.pos])
		sb.WriteString(e.text)
		at = e.end
	}
	sb.Write(f.src[at:to])
	return sb.String()
}

type fakeImporter map[string]*types.Package

func (im fakeImporter) Import(path string) (*types.Package, error) {
	if p := im[path]; p != nil {
		return p, nil
	}
	name := path[strings.LastIndex(path, "/")+1:]
	name = strings.TrimPrefix(name, "go-")
	p := types.NewPackage(path, name)
	p.MarkComplete()
	im[path] = p
	return p, nil
}

var syncOK = map[string]bool{"Pool": true, "Map": true, "Mutex": true, "RWMutex": true, "Once": true,
	"OnceFunc": true, "OnceValue": true, "OnceValues": true, "Locker": false}

func main() {
	repo := flag.String("repo", "/repo", "")
	mod := flag.String("mod", "github.com/Eyevinn/dash-mpd", "")
	out := flag.String("out", "", "output directory")
	pkgs := flag.String("pkgs", "xml,mpd", "")
	coarseAll := flag.Bool("coarse", false, "no yield points, no sync rewriting")
	flag.Parse()
	overlay := map[string]string{}
	fset := token.NewFileSet()
	imp := fakeImporter{}
	site := 0
	summary := map[string]any{}
	for _, pk := range strings.Split(*pkgs, ",") {
		dir := filepath.Join(*repo, pk)
		ents, err := os.ReadDir(dir)
		if err != nil {
			fatal(err)
		}
		var fcs []*fileCtx
		var files []*ast.File
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			p := filepath.Join(dir, n)
			src, err := os.ReadFile(p)
			if err != nil {
				fatal(err)
			}
			af, err := parser.ParseFile(fset, p, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				fatal(err)
			}
			if af.Name.Name == "main" || hasBuildConstraint(af) {
				continue
			}
			fc := &fileCtx{path: p, src: src, file: af, imports: map[string]string{}, keep: map[string]string{}}
			for _, is := range af.Imports {
				ip, _ := strconv.Unquote(is.Path.Value)
				nm := ip[strings.LastIndex(ip, "/")+1:]
				if is.Name != nil {
					nm = is.Name.Name
				}
				fc.imports[nm] = ip
			}
			fcs = append(fcs, fc)
			files = append(files, af)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}, FakeImportC: true}
		tp, _ := conf.Check(*mod+"/"+pk, fset, files, info)
		if tp != nil {
			imp[*mod+"/"+pk] = tp
		}
		coarse := *coarseAll || usesUncontrolled(fcs)
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		nYield := 0
		for _, fc := range fcs {
			isPkg := func(e ast.Expr, path string) bool {
				id, ok := e.(*ast.Ident)
				if !ok {
					return false
				}
				if o, ok := info.Uses[id]; ok {
					pn, ok := o.(*types.PkgName)
					return ok && pn.Imported().Path() == path
				}
				return fc.imports[id.Name] == path
			}
			ast.Inspect(fc.file, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.SelectorExpr:
					x, ok := n.X.(*ast.Ident)
					if !ok {
						return true
					}
					sel := n.Sel.Name
					switch {
					case isPkg(n.X, "sync") && syncOK[sel] && !coarse:
						fc.add(off(x.Pos()), off(x.End()), rt)
						fc.keep[x.Name] = "var _ " + x.Name + ".Locker"
					case isPkg(n.X, "os") && (sel == "ReadFile" || sel == "Open" || sel == "OpenFile" || sel == "File"):
						fc.add(off(x.Pos()), off(x.End()), rt)
						fc.keep[x.Name] = "var _ " + x.Name + ".FileMode"
					case isPkg(n.X, "time") && (sel == "Now" || sel == "Since"):
						fc.add(off(x.Pos()), off(x.End()), rt)
						fc.keep[x.Name] = "var _ " + x.Name + ".Duration"
					}
				case *ast.ForStmt:
					if !coarse && len(n.Body.List) == 0 {
						site++
						fc.add(off(n.Body.Lbrace)+1, off(n.Body.Lbrace)+1, " "+rt+".Y("+strconv.Itoa(site)+"); ")
					}
				case *ast.RangeStmt:
					if tv, ok := info.Types[n.X]; ok && tv.Type != nil {
						if _, ok := tv.Type.Underlying().(*types.Map); ok {
							fc.add(off(n.X.Pos()), off(n.X.Pos()), rt+".RangeMap(")
							fc.add(off(n.X.End()), off(n.X.End()), ")")
						}
					}
				case *ast.BlockStmt:
					if !coarse {
						nYield += yields(fc, n.List, off, &site)
					}
				case *ast.CaseClause:
					if !coarse {
						nYield += yields(fc, n.Body, off, &site)
					}
				}
				return true
			})
		}
		// Package level state.
		owner := map[types.Object]*fileCtx{}
		rhs := map[ast.Expr]*fileCtx{}
		type zeroVar struct {
			fc *fileCtx
			id *ast.Ident
		}
		var zeros []zeroVar
		var specs []struct {
			fc *fileCtx
			vs *ast.ValueSpec
		}
		assigned := map[string]bool{}
		for _, fc := range fcs {
			for _, d := range fc.file.Decls {
				gd, ok := d.(*ast.GenDecl)
				if ok && gd.Tok == token.VAR {
					for _, s := range gd.Specs {
						vs := s.(*ast.ValueSpec)
						specs = append(specs, struct {
							fc *fileCtx
							vs *ast.ValueSpec
						}{fc, vs})
						for _, nm := range vs.Names {
							if o := info.Defs[nm]; o != nil {
								owner[o] = fc
							}
							if len(vs.Values) == 0 && nm.Name != "_" {
								zeros = append(zeros, zeroVar{fc, nm})
							}
						}
						for _, v := range vs.Values {
							rhs[v] = fc
						}
					}
				}
			}
			ast.Inspect(fc.file, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						if id := rootIdent(l); id != nil {
							assigned[id.Name] = true
						}
					}
				case *ast.IncDecStmt:
					if id := rootIdent(n.X); id != nil {
						assigned[id.Name] = true
					}
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						if id := rootIdent(n.X); id != nil {
							assigned[id.Name] = true
						}
					}
				}
				return true
			})
		}
		var resets []string
		k := 0
		emit := func(fc *fileCtx, body string) {
			k++
			fn := fmt.Sprintf("simReset__%s_%d", pk, k)
			fmt.Fprintf(&fc.tail, "\nfunc %s() { %s }\n", fn, body)
			resets = append(resets, fn)
		}
		for _, z := range zeros {
			var ts string
			for _, sp := range specs {
				for _, nm := range sp.vs.Names {
					if nm == z.id {
						ts = sp.fc.render(off(sp.vs.Type.Pos()), off(sp.vs.Type.End()))
					}
				}
			}
			emit(z.fc, z.id.Name+" = *new("+ts+")")
		}
		done := map[ast.Expr]bool{}
		emitInit := func(lhs []string, e ast.Expr) {
			fc := rhs[e]
			if fc == nil || done[e] {
				return
			}
			done[e] = true
			all, big := true, off(e.End())-off(e.Pos()) > 4000
			for i, l := range lhs {
				if l != "_" {
					all = false
				}
				if assigned[l] {
					big = false
				}
				_ = i
			}
			if all || big {
				return
			}
			emit(fc, strings.Join(lhs, ", ")+" = "+fc.render(off(e.Pos()), off(e.End())))
		}
		for _, in := range info.InitOrder {
			var lhs []string
			for _, v := range in.Lhs {
				lhs = append(lhs, v.Name())
			}
			emitInit(lhs, in.Rhs)
		}
		for _, sp := range specs { // anything the checker did not order
			if len(sp.vs.Values) == len(sp.vs.Names) {
				for i, v := range sp.vs.Values {
					emitInit([]string{sp.vs.Names[i].Name}, v)
				}
			} else if len(sp.vs.Values) == 1 {
				var lhs []string
				for _, n := range sp.vs.Names {
					lhs = append(lhs, n.Name)
				}
				emitInit(lhs, sp.vs.Values[0])
			}
		}
		for _, fc := range fcs {
			for _, d := range fc.file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if ok && fd.Recv == nil && fd.Name.Name == "init" {
					k++
					fn := fmt.Sprintf("simInit__%s_%d", pk, k)
					fc.add(off(fd.Name.Pos()), off(fd.Name.End()), fn)
					fmt.Fprintf(&fc.tail, "\nfunc init() { %s() }\n", fn)
					resets = append(resets, fn)
				}
			}
		}
		pkgName := files[0].Name.Name
		odir := filepath.Join(*out, pk)
		if err := os.MkdirAll(odir, 0o755); err != nil {
			fatal(err)
		}
		for _, fc := range fcs {
			ne := off(fc.file.Name.End())
			fc.add(ne, ne, "; import "+rt+" \"dashsim/simrt\"; var _ = "+rt+".Version")
			// the import must come before other declarations but var _ must not
			// precede imports: keep only the import here.
			fc.edits[len(fc.edits)-1].text = "; import " + rt + " \"dashsim/simrt\""
			text := fc.render(0, len(fc.src)) + "\nvar _ = " + rt + ".Version\n"
			var ks []string
			for kk := range fc.keep {
				ks = append(ks, kk)
			}
			sort.Strings(ks)
			for _, kk := range ks {
				text += fc.keep[kk] + "\n"
			}
			text += fc.tail.String()
			op := filepath.Join(odir, filepath.Base(fc.path))
			if err := os.WriteFile(op, []byte(text), 0o644); err != nil {
				fatal(err)
			}
			overlay[fc.path] = op
		}
		gen := "package " + pkgName + "\n\nimport " + rt + " \"dashsim/simrt\"\n\nfunc init() {\n\t" + rt + ".RegisterReset(\"" + pk + "\", []func(){\n"
		for _, r := range resets {
			gen += "\t\t" + r + ",\n"
		}
		gen += "\t})\n}\n"
		op := filepath.Join(odir, "zz_simreset.go")
		if err := os.WriteFile(op, []byte(gen), 0o644); err != nil {
			fatal(err)
		}
		overlay[filepath.Join(dir, "zz_simreset.go")] = op
		summary[pk] = map[string]any{"files": len(fcs), "yield_points": nYield, "resets": len(resets), "coarse": coarse}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		fatal(err)
	}
	sb, _ := json.Marshal(summary)
	os.WriteFile(filepath.Join(*out, "instr.json"), sb, 0o644)
	fmt.Println(string(sb))
}

func hasBuildConstraint(f *ast.File) bool {
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") {
				return true
			}
		}
	}
	return false
}

func rootIdent(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func yields(fc *fileCtx, list []ast.Stmt, off func(token.Pos) int, site *int) int {
	n := 0
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		*site++
		n++
		p := off(s.Pos())
		fc.add(p, p, rt+".Y("+strconv.Itoa(*site)+"); ")
	}
	return n
}

// usesUncontrolled reports whether the package uses concurrency the simulator
// does not control.
func usesUncontrolled(fcs []*fileCtx) bool {
	found := false
	for _, fc := range fcs {
		ast.Inspect(fc.file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GoStmt, *ast.SelectStmt, *ast.ChanType, *ast.SendStmt:
				found = true
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					found = true
				}
			case *ast.SelectorExpr:
				if id, ok := n.X.(*ast.Ident); ok && fc.imports[id.Name] == "sync" {
					switch n.Sel.Name {
					case "Cond", "NewCond", "WaitGroup":
						found = true
					}
				}
			}
			return true
		})
	}
	return found
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(3)
}
