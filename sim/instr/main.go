// Command instr writes the source overlay that puts a library under the
// simulator: a yield before every statement, maps ranged over in simulated
// order, time, sync, channels and go statements routed to the simulator.
//
//	instr -mod DIR -prefix github.com/freerware/negotiator -out DIR -level 0 pkg...
//
// Level 0 is everything; 1 leaves out channels, go statements and package
// maps; 2 only inserts yields.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles                       []string
	Standard                      bool
	Imports                       []string
}

type edit struct {
	at, end int
	text    string
	seq     int
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func main() {
	mod := flag.String("mod", "", "module directory to run go list in")
	prefix := flag.String("prefix", "", "import path prefix of the packages to instrument")
	out := flag.String("out", "", "output directory")
	level := flag.Int("level", 0, "0 full, 1 reduced, 2 yields only")
	flag.Parse()
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,Name,GoFiles,Standard,Imports"}, flag.Args()...)
	c := exec.Command("go", args...)
	c.Dir = *mod
	var stderr bytes.Buffer
	c.Stderr = &stderr
	b, err := c.Output()
	if err != nil {
		die(fmt.Errorf("go list: %v\n%s", err, stderr.String()))
	}
	var pkgs []pkg
	exports := map[string]string{}
	for d := json.NewDecoder(bytes.NewReader(b)); ; {
		var p pkg
		if err := d.Decode(&p); err == io.EOF {
			break
		} else {
			die(err)
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == *prefix || strings.HasPrefix(p.ImportPath, *prefix+"/") {
			pkgs = append(pkgs, p)
		}
	}
	in := &instr{level: *level, exports: exports, out: *out, fset: token.NewFileSet(),
		overlay: map[string]string{}}
	in.imp = importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	die(os.MkdirAll(*out, 0o755))
	for _, p := range pkgs {
		die(in.pkg(p))
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": in.overlay}, "", " ")
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
	j, _ = json.Marshal(in.sites)
	die(os.WriteFile(filepath.Join(*out, "sites.json"), j, 0o644))
	fmt.Printf("instr: %d packages, %d files, %d sites, %v\n", len(pkgs), len(in.overlay), len(in.sites), in.counts())
}

type instr struct {
	level                                 int
	exports                               map[string]string
	imp                                   types.Importer
	fset                                  *token.FileSet
	out                                   string
	overlay                               map[string]string
	sites                                 []site
	nmap, ntime, nsync, ngo, nchan, nmaps int
}

func (in *instr) counts() string {
	return fmt.Sprintf("map ranges %d, time %d, sync imports %d, go %d, chan %d, maps %d",
		in.nmap, in.ntime, in.nsync, in.ngo, in.nchan, in.nmaps)
}

func (in *instr) pkg(p pkg) error {
	var files []*ast.File
	var srcs [][]byte
	var names []string
	for _, f := range p.GoFiles {
		name := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(name)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(in.fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files, srcs, names = append(files, af), append(srcs, src), append(names, name)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: in.imp, Error: func(error) {}}
	conf.Check(p.ImportPath, in.fset, files, info) // errors only make the rewriting poorer
	for i := range files {
		text := in.file(p, files[i], srcs[i], names[i], info)
		name := filepath.Join(in.out, strings.ReplaceAll(strings.TrimPrefix(names[i], "/"), "/", "_"))
		if err := os.WriteFile(name, text, 0o644); err != nil {
			return err
		}
		in.overlay[names[i]] = name
	}
	return nil
}

func (in *instr) file(p pkg, f *ast.File, src []byte, name string, info *types.Info) []byte {
	tf := in.fset.File(f.Pos())
	var edits []edit
	off := func(p token.Pos) int { return tf.Offset(p) }
	put := func(at int, s string) { edits = append(edits, edit{at, at, s, len(edits)}) }
	rep := func(a, b int, s string) { edits = append(edits, edit{a, b, s, len(edits)}) }
	used := false
	fn := ""
	var keep []string
	yield := func(pos token.Pos) string {
		used = true
		id := len(in.sites)
		ps := in.fset.Position(pos)
		in.sites = append(in.sites, site{id, p.ImportPath + "/" + filepath.Base(ps.Filename), ps.Line, fn})
		return "_simrt.Y(" + strconv.Itoa(id) + ");"
	}
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			put(off(s.Pos()), yield(s.Pos()))
		}
	}
	// communications of select statements stay as they are.
	inComm := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CommClause); ok && c.Comm != nil {
			ast.Inspect(c.Comm, func(m ast.Node) bool {
				if _, ok := m.(*ast.FuncLit); ok {
					return false
				}
				if m != nil {
					inComm[m] = true
				}
				return true
			})
		}
		return true
	})
	isPkg := func(e ast.Expr, path string) (string, bool) {
		sel, ok := e.(*ast.SelectorExpr)
		if !ok {
			return "", false
		}
		id, ok := sel.X.(*ast.Ident)
		if !ok {
			return "", false
		}
		pn, ok := info.Uses[id].(*types.PkgName)
		if !ok || pn.Imported().Path() != path {
			return "", false
		}
		return sel.Sel.Name, true
	}
	var selects []*ast.SelectStmt
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectStmt:
			if in.level == 0 && len(x.Body.List) > 0 {
				selects = append(selects, x)
			}
		case *ast.SelectorExpr:
			if in.level <= 1 {
				id, _ := x.X.(*ast.Ident)
				if s, ok := isPkg(x, "time"); ok && simTime[s] && (in.level == 0 || !strings.Contains(s, "T")) {
					in.ntime++
					used = true
					rep(off(id.Pos()), off(id.End()), "_simrt")
					keep = append(keep, id.Name+".Now")
				}
				if s, ok := isPkg(x, "context"); ok && in.level == 0 && (s == "WithTimeout" || s == "WithDeadline") {
					in.ntime++
					used = true
					rep(off(id.Pos()), off(id.End()), "_simrt")
					keep = append(keep, id.Name+".Background")
				}
			}
		case *ast.FuncDecl:
			fn = x.Name.Name
			if x.Body != nil && len(x.Body.List) == 0 {
				put(off(x.Body.Lbrace)+1, yield(x.Body.Lbrace))
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			put(off(x.Body.Lbrace)+1, yield(x.Body.Lbrace))
		case *ast.RangeStmt:
			head := yield(x.Body.Lbrace)
			if in.level <= 1 {
				if t := info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Map); ok {
						in.nmap++
						used = true
						txt := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
						blank := func(e ast.Expr) bool {
							id, ok := e.(*ast.Ident)
							return e == nil || (ok && id.Name == "_")
						}
						pre := "if !_e.Ok() { continue };"
						if !blank(x.Key) {
							pre += txt(x.Key) + x.Tok.String() + "_e.K;"
						}
						if x.Value != nil && !blank(x.Value) {
							pre += txt(x.Value) + x.Tok.String() + "_e.V();"
						}
						rep(off(x.For)+len("for"), off(x.X.Pos()), " _, _e := range _simrt.Entries(")
						put(off(x.X.End()), ")")
						put(off(x.Body.Lbrace)+1, pre+head)
						return true
					}
					if _, ok := t.Underlying().(*types.Chan); ok && in.level == 0 && simple(x.X) {
						in.nchan++
						used = true
						txt := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
						ch := txt(x.X)
						pre := "_, _ok := _simrt.Recv2(" + ch + "); if !_ok { break };"
						if x.Key != nil {
							pre = "_v, _ok := _simrt.Recv2(" + ch + "); if !_ok { break };" + txt(x.Key) + x.Tok.String() + "_v;"
						}
						rep(off(x.For)+len("for"), off(x.X.End()), " ")
						put(off(x.Body.Lbrace)+1, pre+head)
						return true
					}
				}
			}
			put(off(x.Body.Lbrace)+1, head)
		case *ast.CallExpr:
			if in.level == 0 {
				if s, ok := isPkg(x.Fun, "maps"); ok && (s == "Keys" || s == "Values" || s == "All") {
					in.nmaps++
					used = true
					rep(off(x.Fun.Pos()), off(x.Fun.End()), "_simrt.Maps"+s)
					keep = append(keep, x.Fun.(*ast.SelectorExpr).X.(*ast.Ident).Name+".Clone[map[int]int]")
				}
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
					if _, b := info.Uses[id].(*types.Builtin); b {
						in.nchan++
						used = true
						rep(off(id.Pos()), off(id.End()), "_simrt.Close")
					}
				}
			}
		case *ast.SendStmt:
			if in.level == 0 && !inComm[x] {
				in.nchan++
				used = true
				put(off(x.Chan.Pos()), "_simrt.SendTo(")
				rep(off(x.Chan.End()), off(x.Value.Pos()), ")(")
				put(off(x.Value.End()), ")")
			}
		case *ast.UnaryExpr:
			if in.level == 0 && x.Op == token.ARROW && !inComm[x] {
				in.nchan++
				used = true
				f := "_simrt.Recv("
				if _, ok := info.TypeOf(x).(*types.Tuple); ok {
					f = "_simrt.Recv2("
				}
				rep(off(x.OpPos), off(x.X.Pos()), f)
				put(off(x.X.End()), ")")
			}
		case *ast.GoStmt:
			if in.level == 0 {
				c := x.Call
				if id, ok := c.Fun.(*ast.Ident); ok {
					if _, b := info.Uses[id].(*types.Builtin); b {
						return true
					}
				}
				in.ngo++
				used = true
				if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
					rep(off(x.Go), off(c.Fun.Pos()), "_simrt.Go(")
					rep(off(c.Fun.End()), off(c.End()), ")")
				} else {
					rep(off(x.Go), off(c.Fun.Pos()), fmt.Sprintf("_simrt.GoCall(%v, ", c.Ellipsis.IsValid()))
					if len(c.Args) == 0 {
						rep(off(c.Fun.End()), off(c.End()), ")")
					} else {
						rep(off(c.Lparen), off(c.Lparen)+1, ",")
						if c.Ellipsis.IsValid() {
							rep(off(c.Ellipsis), off(c.Ellipsis)+3, "")
						}
					}
				}
			}
		case *ast.ImportSpec:
			if r := simRand[x.Path.Value]; r != "" && in.level <= 1 {
				nm := "rand "
				if x.Name != nil {
					nm = ""
				}
				rep(off(x.Path.Pos()), off(x.Path.End()), nm+r)
			}
			if in.level <= 1 && x.Path.Value == `"sync"` {
				in.nsync++
				nm := "sync "
				if x.Name != nil {
					nm = ""
				}
				rep(off(x.Path.Pos()), off(x.Path.End()), nm+`"verifsim/simsync"`)
			}
		}
		return true
	})
	for i := len(selects) - 1; i >= 0; i-- {
		x := selects[i]
		// what becomes of a part of the source, which is then moved.
		render := func(e ast.Expr) string {
			a, b := off(e.Pos()), off(e.End())
			var mine, rest []edit
			for _, d := range edits {
				if d.at >= a && d.end <= b {
					mine = append(mine, d)
				} else {
					rest = append(rest, d)
				}
			}
			edits = rest
			return apply(src, a, b, mine)
		}
		in.nchan++
		used = true
		def := false
		var names, inits []string
		lastComm := -1
		for k, c := range x.Body.List {
			if c.(*ast.CommClause).Comm == nil {
				def = true
			} else {
				lastComm = k
			}
		}
		for k, c := range x.Body.List {
			cc := c.(*ast.CommClause)
			if cc.Comm == nil {
				continue
			}
			nm := fmt.Sprintf("_s%d_%d", off(x.Select), len(names))
			head := fmt.Sprintf("case %d:", len(names))
			if !def && k == lastComm {
				head = "default:"
			}
			recv := func(e ast.Expr) string {
				for {
					if p, ok := e.(*ast.ParenExpr); ok {
						e = p.X
						continue
					}
					break
				}
				return "_simrt.R(" + render(e.(*ast.UnaryExpr).X) + ")"
			}
			init := ""
			switch s := cc.Comm.(type) {
			case *ast.SendStmt:
				init = "_simrt.S(" + render(s.Chan) + ")(" + render(s.Value) + ")"
			case *ast.ExprStmt:
				init = recv(s.X)
			case *ast.AssignStmt:
				init = recv(s.Rhs[0])
				l := render(s.Lhs[0])
				if len(s.Lhs) == 2 {
					head += l + "," + render(s.Lhs[1]) + s.Tok.String() + nm + ".V," + nm + ".OK;"
				} else {
					head += l + s.Tok.String() + nm + ".V;"
				}
			}
			names, inits = append(names, nm), append(inits, init)
			rep(off(cc.Case), off(cc.Colon)+1, head)
		}
		head := fmt.Sprintf("switch _simrt.Select(%v) {", def)
		if len(names) > 0 {
			head = fmt.Sprintf("switch %s := %s; _simrt.Select(%v, %s) {", strings.Join(names, ","), strings.Join(inits, ","), def, strings.Join(names, ","))
		}
		rep(off(x.Select), off(x.Body.Lbrace)+1, head)
	}
	if used {
		put(off(f.Name.End()), `; import _simrt "verifsim/simrt"`)
	}
	var out bytes.Buffer
	out.WriteString(apply(src, 0, len(src), edits))
	done := map[string]bool{}
	for _, k := range keep {
		if !done[k] {
			done[k] = true
			out.WriteString("\nvar _ = " + k + "\n")
		}
	}
	return out.Bytes()
}

// apply makes the edits of a part of the source.
func apply(src []byte, a, b int, edits []edit) string {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].at != edits[j].at {
			return edits[i].at < edits[j].at
		}
		// an insertion at a point precedes a replacement that starts there.
		return edits[i].end == edits[i].at && edits[j].end != edits[j].at
	})
	var out bytes.Buffer
	last := a
	for _, e := range edits {
		if e.at > last {
			out.Write(src[last:e.at])
			last = e.at
		}
		out.WriteString(e.text)
		if e.end > last {
			last = e.end
		}
	}
	out.Write(src[last:b])
	return out.String()
}

// simple expressions have no side effects.
func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	}
	return false
}

var simTime = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true, "After": true, "AfterFunc": true,
	"NewTimer": true, "NewTicker": true, "Tick": true, "Timer": true, "Ticker": true}

var simRand = map[string]string{`"math/rand"`: `"verifsim/simrand"`, `"math/rand/v2"`: `"verifsim/simrand2"`}
